"""One worker process: runs its slice of the cases and dumps what it saw."""
import argparse
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def contain():
    """Deleting or renaming anything outside this worker's scratch directory is refused, whatever the code under test does."""
    import tempfile
    root = os.path.realpath(tempfile.gettempdir()) + os.sep
    path_args = {"os.remove": 1, "os.rmdir": 1, "shutil.rmtree": 1, "os.rename": 2, "os.truncate": 1}

    def hook(event, args):
        n = path_args.get(event)
        if n is None or (event in ("os.remove", "os.rmdir") and args[1] != -1):
            return
        for a in args[:n]:
            if isinstance(a, int):
                continue
            p = os.path.realpath(os.fsdecode(a))
            if not p.startswith(root):
                raise PermissionError("%s outside the scratch directory refused: %s" % (event, p))
    sys.addaudithook(hook)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--slice", default="0/1")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out", required=True)
    ap.add_argument("--budget", type=float, default=100)
    ap.add_argument("--only", default="")       # workload:seed, for replays
    args = ap.parse_args()
    i, n = [int(x) for x in args.slice.split("/")]
    out = dict(status="ok", cases=0, skipped=0, violations=[], per_workload={})
    t0 = time.time()
    from harness import env, core
    mon = core.Monitor()
    try:
        env.setup()
        contain()
        mod = core.load_check(args.prop)
        import gc
        gc.collect()
        gc.freeze()     # nilmtk calls gc.collect() often: keep the imported world out of it
        if args.only:
            w, s = args.only.split(":")
            todo = [(w, int(s))]
        else:
            todo = []
            for w, cnt in core.plan(mod, args.tier):
                for k in range(cnt):
                    todo.append((k, w, core.case_seed(args.prop, w, args.seed, k)))
            # interleave the workloads so that a budget cut thins all of them
            todo.sort(key=lambda t: t[0])
            todo = [(w, s) for j, (_, w, s) in enumerate(todo) if j % n == i]
        for w, s in todo:
            if time.time() - t0 > args.budget:
                out["skipped"] += 1
                continue
            rec = core.run_case(mod, mon, w, s)
            out["cases"] += 1
            out["per_workload"][w] = out["per_workload"].get(w, 0) + 1
            if rec is not None:
                rec.update(workload=w, case_seed=s)
                out["violations"].append(rec)
                if len(set(v["mechanism"] for v in out["violations"])) >= core.MAX_VIOLATIONS_PER_WORKER:
                    break
                if len(out["violations"]) >= 40:
                    break
    except env.ImportBroken as e:
        out["cases"] = 1
        out["violations"].append(dict(mechanism="import", message="import nilmtk failed", trace=[],
                                      detail={"traceback": str(e)}, workload="import", case_seed=0))
    except env.Inconclusive as e:
        out["status"] = "inconclusive: %s" % e
    except BaseException as e:
        import traceback
        out["status"] = "error: %s" % traceback.format_exc()[-3000:]
    out["events"] = mon.events
    out["signatures"] = sorted(mon.signatures)
    out["samples"] = mon.samples
    out["wall_s"] = time.time() - t0
    with open(args.out, "w") as f:
        json.dump(out, f, default=str)
    sys.stdout.flush()
    try:
        import nilmtk
        nilmtk.STATS_CACHE.close()
    except Exception:
        pass
    os._exit(0)


main()
