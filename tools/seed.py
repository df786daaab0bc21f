"""Make and try a planted bug (development tool; no check uses it).

seed(id, prop, needs, breaks, edits=[(file, old, new)], demo=python text)
writes seeded/<id>/, after confirming in a scratch copy of /repo that the demo
passes without and fails with the change and that the stable tests pass; then
runs the property's quick check on the changed copy and reports if it is caught.
"""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedrepo"
DEMO_SH = """#!/bin/bash
# Run with the repository as working directory.  Exit 0: the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 1
trap 'rm -rf -- "$work"' EXIT
export TMPDIR="$work" PYTHONPATH="$here/stub:$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore MPLBACKEND=Agg TZ=UTC
/opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def fresh():
    if os.path.exists(S):
        shutil.rmtree(S)
    sh("cp -a /repo %s" % S)


def seed(id, prop, needs, breaks, edits, demo, check=True):
    d = os.path.join(VERIF, "seeded", id)
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.py", "w") as f:
        f.write(demo.lstrip("\n"))
    with open(d + "/demo.sh", "w") as f:
        f.write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    if os.path.exists(d + "/stub"):
        shutil.rmtree(d + "/stub")
    shutil.copytree(VERIF + "/stubs", d + "/stub", ignore=shutil.ignore_patterns("__pycache__"))
    with open(d + "/meta.json", "w") as f:
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), f, indent=1)
    fresh()
    r = sh("bash %s/demo.sh" % d, cwd=S)
    if r.returncode:
        print(id, "DEMO FAILS ON CLEAN TREE", (r.stdout + r.stderr)[-1500:])
        return False
    for rel, old, new in edits:
        p = os.path.join(S, "nilmtk", rel)
        with open(p, newline="") as f:
            s = f.read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if s.count(old) != 1:
            print(id, "edit matches", s.count(old), "times:", old)
            return False
        with open(p, "w", newline="") as f:
            f.write(s.replace(old, new))
    diff = subprocess.run("git diff", shell=True, cwd=S, capture_output=True).stdout
    with open(d + "/patch.diff", "wb") as f:
        f.write(diff)
    r = sh("bash %s/demo.sh" % d, cwd=S)
    if r.returncode == 0:
        print(id, "DEMO PASSES WITH THE BUG")
        return False
    msg = (r.stdout + r.stderr).strip().splitlines()[-1:]
    os.makedirs("/tmp/seedvp", exist_ok=True)
    for f in ("nilmtk_partial.py", "results.py", "test.sh"):
        with open("/opt/vp/" + f) as g:
            text = g.read()
        text = text.replace('REPO = "/repo"', 'REPO = "%s"' % S).replace("cd /repo", "cd " + S)
        with open("/tmp/seedvp/" + f, "w") as g:
            g.write(text.replace("/opt/vp", "/tmp/seedvp"))
    sh("bash /tmp/seedvp/test.sh /tmp/seedvp/out.json")
    t = json.load(open("/tmp/seedvp/out.json"))
    if len(t["passed"]) < 6:
        print(id, "STABLE TESTS FAIL", t)
        return False
    # must touch only original lines
    out = "not checked"
    if check:
        r = sh("VERIF_REPO=%s /opt/venv/bin/python harness/run.py %s --tier quick" % (S, prop), cwd=VERIF)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        out = "CAUGHT" if r.returncode == 1 and v else "MISSED (exit %d) %s" % (r.returncode, r.stdout[-300:])
    print(id, prop, "demo:", msg, "->", out)
    shutil.rmtree(S)
    return True
