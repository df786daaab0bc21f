"""Static facts about each check, read without importing nilmtk.

Each check module pNN.py declares WORKLOADS, RULE and ASSUMPTIONS as literals;
they are extracted with ast so that the driver needs no third-party import."""
import ast
import glob
import os

HERE = os.path.dirname(os.path.abspath(__file__))


def _literals(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and \
                isinstance(node.targets[0], ast.Name) and node.targets[0].id.isupper():
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


CHECKS = {}
for _p in sorted(glob.glob(os.path.join(HERE, "p[0-9]*.py"))):
    _l = _literals(_p)
    CHECKS[os.path.basename(_p)[:-3].upper()] = dict(
        workloads=_l["WORKLOADS"], rule=_l["RULE"],
        assumptions=_l.get("ASSUMPTIONS", []),
        technique=_l.get("TECHNIQUE", ""), note=_l.get("NOTE", ""))
