"""Regenerate properties.jsonl and MANIFEST.json from their sources."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import registry
from properties_src import P

PY = "/opt/venv/bin/python"
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        checks.append(dict(
            property=i,
            quick_cmd="%s harness/run.py %s --tier quick" % (PY, i),
            thorough_cmd="%s harness/run.py %s --tier thorough" % (PY, i),
            evidence_file="evidence/%s.json" % i,
            technique=c["technique"], level="exploration", level_note=c["note"]))
    else:
        na.append(dict(property=i, reason="no monitor built for it (yet); runtime monitoring does apply"))
man = dict(version=1, setup_cmd="%s harness/selftest.py" % PY, checks=checks, not_applicable=na,
           notes="No hooks were needed in /repo: every monitor observes the public API from /verif. "
                 "nilm_metadata is not installed in the sandbox; stubs/nilm_metadata stands in for it.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
missing = set(registry.CHECKS) - {p["id"] for p in P}
print(len(checks), "checks", len(na), "not claimed", "checks without property:", sorted(missing))
