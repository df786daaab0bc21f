"""setup_cmd: nothing to build; verify the pieces the checks need are here."""
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in ("harness/worker.py", "stubs/nilm_metadata/__init__.py", "checks/registry.py"):
    if not os.path.exists(os.path.join(VERIF, p)):
        sys.exit("missing " + p)
os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
subprocess.check_call([sys.executable, "-c", "import numpy, pandas, tables, sklearn, hmmlearn, yaml, networkx"],
                      env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
print("ok")
