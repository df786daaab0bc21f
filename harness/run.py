"""Run the check of one property: spawn workers, merge, judge, write evidence.

usage: python harness/run.py PROP [--tier quick|thorough] [--replay FILE]
exit 0: held on everything observed (known findings are printed)
exit 1: VIOLATION line printed
exit 2: inconclusive (nothing could be observed)
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


def known_findings(prop):
    """{mechanism: text} of the unrepaired findings listed for `prop`."""
    found = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) mechanism=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                found[m.group(2)] = m.group(3)
    return found


def child_env(scratch):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC",
               MPLBACKEND="Agg", TMPDIR=scratch, HOME=scratch,
               MPLCONFIGDIR=os.path.join(scratch, "mpl"),
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               NUMEXPR_NUM_THREADS="1", BLOSC_NTHREADS="1")
    env.pop("PYTHONPATH", None)
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--only", help="workload:seed")
    args = ap.parse_args()
    prop, tier = args.prop, args.tier
    t0 = time.time()
    n = args.workers or 8
    budget = 150.0 if tier == "quick" else 700.0
    only = args.only or ""
    if args.replay:
        rec = json.load(open(args.replay))
        only = "%s:%d" % (rec["workload"], rec["case_seed"])
    if only:
        n = 1
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    results = []
    try:
        procs = []
        for i in range(n):
            wd = os.path.join(scratch, "w%d" % i)
            os.makedirs(os.path.join(wd, "mpl"))
            out = os.path.join(scratch, "out%d.json" % i)
            log = open(os.path.join(scratch, "log%d" % i), "wb")
            cmd = [PY, os.path.join(VERIF, "harness", "worker.py"), prop,
                   "--slice", "%d/%d" % (i, n), "--seed", str(args.seed),
                   "--tier", tier, "--out", out, "--budget", str(budget)]
            if only:
                cmd += ["--only", only]
            procs.append((subprocess.Popen(cmd, cwd=wd, env=child_env(wd), stdout=log,
                                           stderr=subprocess.STDOUT), out, log))
        deadline = time.time() + budget + 60 + 2 * 300
        for p, out, log in procs:
            try:
                p.wait(timeout=max(5, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            log.close()
            if os.path.exists(out):
                results.append(json.load(open(out)))
            else:
                tail = open(log.name, errors="replace").read()[-2000:]
                results.append(dict(status="error: worker died (rc %s) %s" % (p.returncode, tail),
                                    cases=0, skipped=0, violations=[], events={}, signatures=[],
                                    samples=[], per_workload={}, wall_s=0))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return judge(prop, tier, args, results, t0, bool(only))


def judge(prop, tier, args, results, t0, partial):
    from checks import registry
    known = known_findings(prop)
    events, sigs, samples, per_w = {}, set(), [], {}
    for r in results:
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        sigs.update(r["signatures"])
        samples.extend(r["samples"][:1])
        for k, v in r["per_workload"].items():
            per_w[k] = per_w.get(k, 0) + v
    violations, seen_known = [], {}
    for r in results:
        for v in r["violations"]:
            if v["mechanism"] in known:
                seen_known[v["mechanism"]] = seen_known.get(v["mechanism"], 0) + 1
            else:
                violations.append(v)
    cases = sum(r["cases"] for r in results)
    bad = [r["status"] for r in results if r["status"] != "ok"]
    meta = registry.CHECKS[prop]
    missing = [w for w, q, t in meta["workloads"] if not per_w.get(w) and (q if tier == "quick" else t)]
    evidence = dict(
        property=prop, tier=tier, seed=args.seed, level="exploration",
        coverage=dict(
            evaluations=cases,
            distinct_nontrivial=len(sigs),
            rule=meta["rule"],
            samples=samples[:5] or ["none"],
            cases_per_workload=per_w,
            cases_cut_by_time_budget=sum(r["skipped"] for r in results),
            monitor_events={k: events[k] for k in sorted(events)},
            oracle_decisions=sum(v for k, v in events.items() if k.startswith("judged:")),
        ),
        assumptions=meta["assumptions"],
        wall_s=round(time.time() - t0, 2),
        violations=len(violations),
        known_findings_observed=seen_known,
        worker_errors=bad[:3],
    )
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    if not partial:
        with open(os.path.join(edir, prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)
    for mech, text in known.items():
        print("KNOWN-FINDING: property=%s %s [mechanism=%s, observed %d times]" % (
            prop, text, mech, seen_known.get(mech, 0)))
    if violations:
        rdir = os.path.join(edir, "replay")
        os.makedirs(rdir, exist_ok=True)
        done = set()
        for v in violations:
            if v["mechanism"] in done:
                continue
            done.add(v["mechanism"])
            path = os.path.join(rdir, "%s-%s-%d.json" % (prop, v["workload"], v["case_seed"]))
            rec = dict(property=prop, tier=tier, seed=args.seed, **v)
            rec["replay_with"] = "python harness/run.py %s --replay %s" % (prop, path)
            with open(path, "w") as f:
                json.dump(rec, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s: %s" % (v["mechanism"], str(v["message"])[:600]))
            for k, d in list(v["detail"].items())[:8]:
                print("    %s = %s" % (k, str(d)[:1200]))
        return 1
    if bad or (missing and not partial) or not cases:
        print("INCONCLUSIVE property=%s %s missing=%s cases=%d" % (
            prop, "; ".join(bad)[:3000], missing, cases))
        return 2
    print("OK property=%s tier=%s seed=%d: held on %d executions (%d distinct situations, "
          "%d oracle decisions) in %.1f s" % (
              prop, tier, args.seed, cases, len(sigs),
              evidence["coverage"]["oracle_decisions"], evidence["wall_s"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
