"""P24: the Mean model and the files a disaggregator keeps."""
import os

import numpy as np
import pandas as pd

from checks import gen
from nilmtk.disaggregate import Mean
from nilmtk.disaggregate.disaggregator import Disaggregator

WORKLOADS = [("history", 160, 2500), ("cleanup", 40, 400)]
RULE = ("random histories of training calls (several appliances, several frames per call, missing values, fractional "
        "watts), predictions, saving and reloading; predictions are compared with the mean of all values trained on; "
        "distinct = (#appliances, #calls, missing values, reloads, test shapes)")
ASSUMPTIONS = ["single-column training frames", "every appliance has at least one present value"]
TECHNIQUE = "history monitor: model predictions vs mean of all values in the training trace; file-system trace for clean-up"
NOTE = "Held on the executions observed; predictions, index, columns, persistence and deletions are judged."


def frame(rng, n, nan=0.0):
    v = rng.np.integers(0, 24000, (n, 1)) / rng.choice([1.0, 8.0])
    if nan:
        v[rng.np.random((n, 1)) < nan] = np.nan
    if rng.chance(0.1):
        v = np.round(v % 1, 3)      # standby power below 1 W
    return pd.DataFrame(v, index=gen.rand_index(rng, n, tz=rng.choice([None, "UTC"])), columns=gen.mi([("power", "active")]))


def judge(mon, rng, model, hist):
    tests = [pd.DataFrame(rng.np.random((n, 1)), index=gen.rand_index(rng, n), columns=gen.mi([("power", "active")]))
             for n in [rng.choice([1, 2, 7, 40]) for _ in range(rng.randrange(1, 4))]]
    keep = [t.copy() for t in tests]
    out = model.disaggregate_chunk(tests)
    mon.check(isinstance(out, list), "predict.type")
    mon.equal(len(out), len(tests), "predict.one_per_chunk")
    for t, o, k in zip(tests, out, keep):
        mon.equal(sorted(o.columns), sorted(hist), "predict.appliances")
        mon.check(o.index.equals(k.index), "predict.index", "prediction not on the index of its mains chunk")
        for a in hist:
            allv = np.concatenate(hist[a])
            want = np.nanmean(allv)
            mon.close(o[a].values, np.full(len(k), want), "predict.mean", rtol=1e-9, appliance=a, n=len(allv),
                      missing=int(np.isnan(allv).sum()))
        mon.check(t.equals(k), "predict.arguments_unchanged")
    mon.event("predicted chunks", len(out))


def w_history(mon, rng):
    path = gen.scratch("model")
    save = rng.chance(0.4)
    model = Mean({"save-model-path": path} if save else {})
    hist = {}
    names = ["fridge", "kettle", "washing machine", "sockets #2"][:rng.randrange(1, 5)]
    calls = rng.randrange(1, 7)
    reloads = 0
    nan = rng.choice([0, 0, 0.3])
    for _ in range(calls):
        op = rng.choice(["fit", "fit", "fit", "predict", "reload"])
        if op == "fit" or not hist:
            use = names if rng.chance(0.8) else rng.sample(names, rng.randrange(1, len(names) + 1))
            train, mains = [], [frame(rng, 5)]
            for a in use:
                fs = [frame(rng, rng.choice([1, 2, 10, 60]), nan) for _ in range(rng.randrange(1, 4))]
                if all(f.isna().all().all() for f in fs):
                    fs[0].iloc[0, 0] = 100.5
                train.append((a, fs))
            copies = [[f.copy() for f in fs] for _, fs in train]
            model.partial_fit(mains, train)
            for (a, fs), cs in zip(train, copies):
                hist.setdefault(a, []).extend(c.values.ravel() for c in cs)
                mon.check(all(f.equals(c) for f, c in zip(fs, cs)), "fit.arguments_unchanged")
            mon.note("fit", use, [sum(len(f) for f in fs) for _, fs in train])
        elif op == "predict":
            judge(mon, rng, model, hist)
        elif op == "reload":
            p2 = path if save else gen.scratch("model2")
            if not save:
                model.save_model(p2)
            if rng.chance(0.5):
                model = Mean({"pretrained-model-path": p2, "save-model-path": path if save else None})
            else:
                model = Mean({"save-model-path": path if save else None})
                model.load_model(p2)
            reloads += 1
            mon.note("reload")
    judge(mon, rng, model, hist)
    mon.state("history", len(names), calls, nan > 0, reloads, save)


class Guard(object):
    """Lets os.remove act only inside one directory and records its targets."""

    def __init__(self, root):
        self.root, self.removed = os.path.realpath(root), []

    def __call__(self, path, *a, **k):
        full = os.path.realpath(path)
        self.removed.append(full)
        if full.startswith(self.root + os.sep):
            self.real(full)

    def __enter__(self):
        self.real, self.unlink = os.remove, os.unlink
        os.remove = os.unlink = self
        return self

    def __exit__(self, *a):
        os.remove, os.unlink = self.real, self.unlink


def w_cleanup(mon, rng):
    root = gen.scratch("cwd")
    os.makedirs(root)
    prefix = rng.choice(["mean-temp-weights", "x", "seq2point-"])
    pool = [prefix + "a.h5", prefix + "-12-epoch.h5", prefix + ".h5", "a" + prefix + ".h5", prefix + "a.h5.bak",
            prefix + "a.txt", "data.h5", "ukdale.h5", prefix.upper() + "Q.h5", prefix[:-1] + ".h5x", prefix + "h5", prefix + "b.H5", prefix + "c.h5.h5"]
    files = set(rng.sample(pool, rng.randrange(2, len(pool) + 1)))
    for f in files:
        open(os.path.join(root, f), "w").close()
    os.makedirs(os.path.join(root, prefix + "dir.h5"))
    sub = os.path.join(root, "sub")
    os.makedirs(sub)
    open(os.path.join(sub, prefix + "z.h5"), "w").close()
    d = rng.choice([Disaggregator, lambda: Mean({})])()
    d.MODEL_NAME = "m"
    use = rng.chance(0.75)
    if use:
        d.file_prefix = prefix
    old = os.getcwd()
    os.chdir(root)
    try:
        with Guard(root) as g:
            d.clear_model_checkpoints()
    finally:
        os.chdir(old)
    left = {f for f in os.listdir(root) if os.path.isfile(os.path.join(root, f))}
    gone = {f for f in files if use and f.startswith(prefix) and f.endswith(".h5")}
    mon.equal(sorted(left), sorted(files - gone), "cleanup.files", "other files deleted or own ones kept", prefix=prefix)
    mon.check(os.path.isdir(os.path.join(root, prefix + "dir.h5")) and os.path.exists(os.path.join(sub, prefix + "z.h5")),
              "cleanup.below")
    mon.equal(sorted(os.path.basename(f) for f in g.removed), sorted(gone), "cleanup.removed")
    mon.state("cleanup", use, len(gone), len(files))
