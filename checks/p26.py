"""P26: the experiment API trains, tests and scores on exactly aligned data."""
import contextlib
import io
import os
os.environ["MPLBACKEND"] = "Agg"

import numpy as np
import pandas as pd

from checks import gen
from checks.p08 import reference
from nilmtk import losses
from nilmtk.api import API
from nilmtk.disaggregate.disaggregator import Disaggregator
from nilmtk.disaggregate.mean import Mean

WORKLOADS = [("joint", 60, 800), ("nodrop", 16, 200), ("chunks", 40, 500), ("helpers", 80, 1000), ("mean", 16, 150)]
RULE = ("random experiments (1-2 datasets x 1-2 buildings, 1-3 appliances, windows, sample rates, gaps and NaN, two spy "
        "disaggregators, artificial aggregates, site-only, padding predictions, chunked and joint) are run by the API; every "
        "frame handed to a disaggregator and every stored truth, prediction, error and key is recomputed from the raw tables; "
        "distinct = (mode, #buildings, #appliances, gaps, options)")
ASSUMPTIONS = ["one power column per meter is selected", "chunk-wise completeness is judged for meters with common time stamps",
               "errors are compared with relative tolerance 1e-4 (the API keeps float32)"]
TECHNIQUE = "spy monitor: frames handed to instrumented disaggregators and stored scores vs recomputation from the raw tables"
NOTE = "Held on the experiments observed; every frame, prediction and error is compared."
W = [("power", "active")]
TYPES = ["fridge", "kettle", "microwave", "light", "television"]


class Spy(Disaggregator):
    """Records what it is given and answers a fixed function of it."""

    def __init__(self, name, apps, k, pad=0, chunked=True, index=True):
        self.MODEL_NAME = name
        self.apps, self.k, self.pad, self.index = apps, k, pad, index
        self.low = 200 if k == 7 else 0      # some predictions are negative
        self.chunk_wise_training = chunked
        self.fits, self.tests, self.preds = [], [], []

    def partial_fit(self, train_main, train_appliances, **kw):
        self.fits.append(([f.copy() for f in train_main], [(n, [f.copy() for f in fs]) for n, fs in train_appliances], dict(kw)))

    def disaggregate_chunk(self, test_mains):
        self.tests.append([f.copy() for f in test_mains])
        out = []
        for f in test_mains:
            n = len(f)
            d = {a: (np.arange(n + self.pad) * (j + 1) * self.k) % 997 + j - self.low for j, a in enumerate(self.apps)}
            p = pd.DataFrame(d, dtype="float64")
            if self.index and not self.pad:
                p.index = f.index
            out.append(p)
        self.preds.append(out)
        return out


def rmse(a, b):
    return float(np.sqrt(np.mean((np.asarray(a, float) - np.asarray(b, float)) ** 2)))


def mae(a, b):
    return float(np.mean(np.abs(np.asarray(a, float) - np.asarray(b, float))))


def formula(metric, gt, pred):
    if metric == "rmse":
        return rmse(gt, pred)
    if metric == "mae":
        return mae(gt, pred)
    return float(getattr(losses, metric)(gt, pred))


class World(object):
    """Datasets with raw tables and the windows asked for."""

    def __init__(self, rng, apps, common, gaps, nan):
        self.sets = {}
        self.maxp = 18
        for k in range(rng.choice([1, 1, 2])):
            tz = rng.choice(["UTC", "Europe/London", "US/Eastern"])
            d = gen.Data("p26-%d" % rng.randrange(10 ** 9), tz)
            model = d.name + "dev"
            d.devices[model] = gen.device(model, W, 6, self.maxp, None, None)
            for b in range(1, rng.choice([2, 2, 3])):
                n = rng.choice([60, 150])
                start = rng.choice(["2013-10-27 00:30", "2013-06-03 10:00"])
                idx = gen.rand_index(rng, n, period=6, tz=tz, gaps=gaps, maxgap=8, start=start)
                order = list(apps)
                rng.shuffle(order)
                for i in range(1, len(apps) + 2):
                    ix = idx if common or i == 1 else gen.rand_index(rng, n, period=6, tz=tz, gaps=gaps, maxgap=8, start=start)
                    v = np.round(gen.rand_values(rng, n, 1), 2)
                    if nan:
                        v[rng.np.random(n) < 0.05] = np.nan
                    if nan == "runs":
                        for at in rng.np.integers(0, n - 12, 3):
                            v[at:at + rng.randrange(5, 12)] = np.nan
                    d.meter(b, i, pd.DataFrame(v, index=ix, columns=gen.mi(W)), model, of=1, site=i == 1)
                    if i > 1:
                        d.appliance(b, order[i - 2], 1, [i])
                d.buildings[b]["order"] = order
            path = gen.scratch(".h5")
            ds = d.open(path=path)
            ds.store.close()
            self.sets["set%d" % k] = (d, path)

    def request(self, rng):
        """Experiment dictionary and the windows in the order they are visited."""
        req, visits = {}, []
        for name in rng.sample(sorted(self.sets), rng.randrange(1, len(self.sets) + 1)):
            d, path = self.sets[name]
            bs = {}
            for b in rng.sample(sorted(d.buildings), rng.randrange(1, len(d.buildings) + 1)):
                lo = max(d.df(b, i).index[0] for i in d.buildings[b]["meters"])
                hi = min(d.df(b, i).index[-1] for i in d.buildings[b]["meters"])
                span = (hi - lo).total_seconds()
                s, e = lo + pd.Timedelta(seconds=int(span * rng.choice([-0.1, 0, 0.2]))), lo + pd.Timedelta(seconds=int(span * rng.choice([0.7, 0.95, 1.2])))
                if rng.chance(0.5):
                    bs[b] = dict(start_time=str(s.tz_localize(None)), end_time=str(e.tz_localize(None)))
                else:
                    bs[b] = dict(start_time=s.tz_localize(None), end_time=e.tz_localize(None))
                visits.append((name, b, s, e))
            req[name] = dict(path=path, buildings=bs)
        return req, visits

    def window(self, visit, i):
        name, b, s, e = visit
        df = self.sets[name][0].df(b, i)
        t = gen.ns(df.index)
        return df[(t >= s.value) & (t < e.value)]

    def cells(self, visit, i, sr):
        df = self.window(visit, i)
        if not len(df):
            return {}
        lab, val = reference(df, sr, "mean", "ffill", -(-self.maxp // sr))
        return dict(zip(lab.tolist(), val[:, 0].tolist()))

    def meter_of(self, visit, app):
        return self.sets[visit[0]][0].buildings[visit[1]]["order"].index(app) + 2

    def aligned(self, visit, apps, sr, drop=True):
        """(labels, mains values, {app: values}) the API must use."""
        m = self.cells(visit, 1, sr)
        a = [self.cells(visit, self.meter_of(visit, x), sr) for x in apps]
        keep = sorted(t for t in m if m[t] == m[t] and all(t in c and c[t] == c[t] for c in a))
        return keep, [m[t] for t in keep], [[c[t] for t in keep] for c in a]


def same(mon, frame, lab, val, mech, **kw):
    mon.check(np.array_equal(gen.ns(frame.index), np.asarray(lab, dtype="int64")), mech + ".index", "wrong instants",
              count=(len(frame), len(lab)), **kw)
    mon.check(np.allclose(frame.values.astype(float).reshape(-1), np.asarray(val, float), rtol=1e-5, atol=1e-3), mech + ".values",
              "wrong values", **kw)
    mon.event("samples compared", len(lab))


def params(req_train, req_test, apps, methods, metrics, sr, **kw):
    p = dict(power=dict(mains=["active"], appliance=["active"]), sample_rate=sr, appliances=list(apps), methods=methods,
             train=dict(datasets=req_train), test=dict(datasets=req_test, metrics=list(metrics)))
    p.update(kw)
    return p


def run(p):
    import matplotlib.pyplot as plt
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return API(p)
        finally:
            plt.close("all")


def naive_ok(visits):
    for _, _, s, e in visits:
        for t in (s, e):
            n = t.tz_localize(None)
            try:
                if n.tz_localize(t.tz) != t:
                    return False
            except Exception:
                return False
    return True


def w_joint(mon, rng):
    apps = rng.sample(TYPES, rng.randrange(1, 4))
    gaps, nan = rng.choice([(0, False), (0.1, False), (0.1, True), (0.05, "runs")])
    world = World(rng, apps, rng.chance(0.3), gaps, nan)
    tr, vtr = world.request(rng)
    te, vte = world.request(rng)
    if not naive_ok(vtr + vte):
        return
    sr = rng.choice([6, 6, 12, 30])
    agg, site = rng.chance(0.3), rng.chance(0.15)
    pred_apps = list(apps)
    rng.shuffle(pred_apps)
    spies = [Spy("A", apps, 3, chunked=rng.chance(0.5), index=rng.chance(0.5)), Spy("B", pred_apps, 7, pad=rng.choice([0, 0, 5]))]
    pre = rng.chance(0.2)
    if pre:
        spies[1].load_model_path = "somewhere"
        if rng.chance(0.5):
            spies.reverse()
    metrics = rng.sample(["mae", "rmse", "relative_error", "nosuchmetric"], rng.randrange(1, 4))
    if any(not world.aligned(v, apps, sr)[0] for v in vtr + vte):
        return
    p = params(tr, te, apps, {s.MODEL_NAME: s for s in spies}, metrics, sr)
    if agg:
        p["artificial_aggregate"] = True
    if site:
        p["site_only"] = True
    api = run(p)
    for s in spies:
        if s.MODEL_NAME == "B" and pre:
            mon.equal(len(s.fits), 0, "joint.pretrained", "a pretrained model was trained")
            continue
        mon.equal(len(s.fits), 1, "joint.fit_calls")
        mains, subs, kw = s.fits[0]
        mon.equal(len(mains), len(vtr), "joint.train_buildings")
        mon.equal([n for n, _ in subs], list(apps), "joint.train_order", "appliances in another order")
        for k, v in enumerate(vtr):
            lab, m, a = world.aligned(v, apps, sr)
            same(mon, mains[k], lab, np.sum(a, axis=0) if agg else m, "joint.train_mains", building=v[1])
            for (n, fs), want in zip(subs, a):
                same(mon, fs[k], lab, want, "joint.train_appliance", app=n)
    judge_tests(mon, api, world, spies, vte, apps, sr, agg, site, metrics, "joint",
                ["%s_%d" % (v[0], v[1]) for v in vte])
    mon.state("joint", len(vtr), len(vte), len(apps), gaps, nan, agg, site, pre, sr)


def w_nodrop(mon, rng):
    """Without DROP_ALL_NANS the methods get each meter's samples as they are, missing values included."""
    apps = rng.sample(TYPES, rng.randrange(1, 4))
    world = World(rng, apps, True, 0, "runs")
    tr, vtr = world.request(rng)
    te, vte = world.request(rng)
    if not naive_ok(vtr + vte):
        return
    sr = 6
    spies = [Spy("A", apps, 3), Spy("B", apps, 7)]
    p = params(tr, te, apps, {s.MODEL_NAME: s for s in spies}, [], sr, DROP_ALL_NANS=False)
    agg = rng.chance(0.4)
    if agg:
        p["artificial_aggregate"] = True
    cells = {}
    for n, v in enumerate(vtr + vte):
        per = [world.cells(v, 1, sr)] + [world.cells(v, world.meter_of(v, a), sr) for a in apps]
        labs = [sorted(c) for c in per]
        if any(l != labs[0] for l in labs) or not labs[0]:
            return
        mon.event("cells without a value", int(sum(np.isnan(list(c.values())).sum() for c in per)))
        cells[n] = labs[0], [[c[t] for t in labs[0]] for c in per]
    api = run(p)

    def same_nan(frame, lab, val, mech):
        mon.check(np.array_equal(gen.ns(frame.index), np.asarray(lab, dtype="int64")), mech + ".index", "wrong instants",
                  count=(len(frame), len(lab)))
        mon.check(np.allclose(frame.values.astype(float).reshape(-1), np.asarray(val, float), rtol=1e-5, atol=1e-3, equal_nan=True),
                  mech + ".values", "wrong values")
        mon.event("samples compared", len(lab))

    for s in spies:
        mon.equal((len(s.fits), len(s.tests)), (1, len(vte)), "nodrop.calls")
        mains, subs, _ = s.fits[0]
        for k in range(len(vtr)):
            lab, vals = cells[k]
            same_nan(mains[k], lab, np.sum(vals[1:], axis=0) if agg else vals[0], "nodrop.train_mains")
            for (n, fs), want in zip(subs, vals[1:]):
                same_nan(fs[k], lab, want, "nodrop.train_appliance")
        for k in range(len(vte)):
            lab, vals = cells[len(vtr) + k]
            same_nan(s.tests[k][0], lab, np.sum(vals[1:], axis=0) if agg else vals[0], "nodrop.test_mains")
    lab, vals = cells[len(vtr) + len(vte) - 1]
    for n, want in zip(apps, vals[1:]):
        mon.check(np.allclose(api.gt_overall[n].values.astype(float), np.asarray(want, dtype="float32"), equal_nan=True),
                  "nodrop.truth", "ground truth is not the appliance's power", app=n)
    mon.state("nodrop", len(vtr), len(vte), len(apps), agg)


def judge_tests(mon, api, world, spies, vte, apps, sr, agg, site, metrics, tag, keys):
    want_errors, want_keys = [], []
    last = None
    for s in spies:
        mon.equal(len(s.tests), len(vte), tag + ".test_calls")
    for k, v in enumerate(vte):
        if site:
            m = world.cells(v, 1, sr)
            lab = sorted(t for t in m if m[t] == m[t])
            want_m, a = [m[t] for t in lab], None
        else:
            lab, m, a = world.aligned(v, apps, sr)
            want_m = np.sum(a, axis=0) if agg else m
        for s in spies:
            mon.equal(len(s.tests[k]), 1, tag + ".test_frames")
            same(mon, s.tests[k][0], lab, want_m, tag + ".test_mains", building=v[1])
        if site:
            continue
        gt = {n: np.asarray(x, dtype="float32") for n, x in zip(apps, a)}
        for metric in metrics:
            if metric == "nosuchmetric":
                continue
            tab = {}
            for s in spies:
                pr = s.preds[k][0]
                tab[s.MODEL_NAME] = {n: formula(metric, gt[n].astype(float), pr[n].values[:len(lab)].astype("float32").astype(float)) for n in apps}
            want_errors.append(tab)
            want_keys.append(keys[k] + "_" + metric)
        last = (lab, gt, k)
    mon.equal(api.errors_keys, want_keys, tag + ".error_keys")
    mon.equal(len(api.errors), len(want_errors), tag + ".errors")
    for e, w, key in zip(api.errors, want_errors, want_keys):
        for clf in w:
            for n in w[clf]:
                mon.close(float(e[clf][n]), w[clf][n], tag + ".error_value", rtol=1e-4, atol=1e-4, key=key, method=clf, app=n)
                mon.event("errors compared")
        mon.equal(sorted(e.columns), sorted(w), tag + ".error_methods")
        mon.equal(sorted(e.index), sorted(apps), tag + ".error_apps")
    if last:
        lab, gt, k = last
        mon.check(np.array_equal(gen.ns(api.gt_overall.index), np.asarray(lab)), tag + ".truth_index")
        mon.equal(sorted(api.gt_overall.columns), sorted(apps), tag + ".truth_columns")
        for n in apps:
            mon.check(np.allclose(api.gt_overall[n].values, gt[n]), tag + ".truth", "ground truth is not the appliance's power", app=n)
            for s in spies:
                pr = api.pred_overall[s.MODEL_NAME]
                mon.check(np.array_equal(gen.ns(pr.index), np.asarray(lab)), tag + ".pred_index")
                mon.check(np.allclose(pr[n].values, s.preds[k][0][n].values[:len(lab)]), tag + ".pred", "stored prediction differs", app=n)


def w_chunks(mon, rng):
    apps = rng.sample(TYPES, rng.randrange(1, 4))
    common = rng.chance(0.6)
    gaps, nan = rng.choice([(0, False), (0.1, False), (0.1, True), (0.05, "runs")])
    world = World(rng, apps, common, gaps, nan)
    tr, vtr = world.request(rng)
    te, vte = world.request(rng)
    if not naive_ok(vtr + vte):
        return
    sr = 6
    if any(not world.aligned(v, apps, sr)[0] for v in vtr + vte):
        return
    chunk = rng.choice([5, 20, 40, 1000])
    agg = common and rng.chance(0.4)   # the chunks of meters with other time stamps do not match
    spies = [Spy("A", apps, 3, chunked=True), Spy("B", list(reversed(apps)), 7, chunked=rng.chance(0.6))]
    epochs = rng.choice([None, 2, 3, 5])
    if epochs:
        spies[0].n_epochs = epochs
    if rng.chance(0.5):
        spies[1].n_epochs = 1     # a neural network without chunk-wise training trains its epochs itself
    metrics = rng.sample(["mae", "rmse"], rng.randrange(1, 3))
    p = params(tr, te, apps, {s.MODEL_NAME: s for s in spies}, metrics, sr, chunk_size=chunk)
    if agg:
        p["artificial_aggregate"] = True
    api = run(p)
    for s in spies:
        if not s.chunk_wise_training:
            mon.equal(len(s.fits), 1, "chunks.joint_fit")
            continue
        E = epochs if (s is spies[0] and epochs) else 1
        seen = [set() for _ in range(E)]
        for n, (mains, subs, kw) in enumerate(s.fits):
            ep = kw.get("current_epoch", 0)
            mon.equal((len(mains), [x for x, _ in subs]), (1, list(apps)), "chunks.shape")
            frame_ok(mon, world, vtr, mains[0], subs, apps, sr, agg, "chunks.train")
            mon.check(0 <= ep < E, "chunks.epoch", answer=ep)
            seen[ep] |= set(ns(mains[0].index).tolist())
        if common:
            want = set()
            for v in vtr:
                raw = set(gen.ns(world.window(v, 1).index).tolist())
                want |= {t for t in world.aligned(v, apps, sr)[0] if any(t <= r < t + sr * 10 ** 9 for r in raw)} if not nan else set()
            for ep in seen:
                mon.check(want <= ep, "chunks.complete", "samples were never trained on", missing=len(want - ep))
        mon.event("training chunks", len(s.fits))
    # testing
    want_keys, i = [], 0
    errs = list(api.errors)
    n_calls = len(spies[0].tests)
    mon.equal(len(spies[1].tests), n_calls, "chunks.test_calls")
    for k in range(n_calls):
        a, b = spies[0].tests[k][0], spies[1].tests[k][0]
        mon.check(a.equals(b), "chunks.same_test", "the methods were tested on different data")
        if not len(a):
            continue
        v = owner(world, vte, a, apps, agg)
        mon.check(v is not None, "chunks.test_source", "test data from outside the requested windows")
        for metric in metrics:
            tab = errs[i]
            i += 1
            gt = {n: np.array([world.cells(v, world.meter_of(v, n), sr)[t] for t in gen.ns(a.index).tolist()], dtype="float32").astype(float) for n in apps}
            for s in spies:
                pr = s.preds[k][0]
                for n in apps:
                    mon.close(float(tab[s.MODEL_NAME][n]), formula(metric, gt[n], pr[n].values.astype("float32").astype(float)),
                              "chunks.error_value", rtol=1e-4, atol=1e-4, metric=metric, app=n)
            mon.check(api.errors_keys[i - 1].startswith("%s_%d_" % (v[0], v[1])) and api.errors_keys[i - 1].endswith("_" + metric),
                      "chunks.error_key", answer=api.errors_keys[i - 1])
    mon.equal((len(errs), len(api.errors_keys)), (i, i), "chunks.errors")
    mon.check(len(set(api.errors_keys)) == len(api.errors_keys), "chunks.unique_keys", answer=api.errors_keys)
    if common and not nan:
        got = set()
        for t in spies[0].tests:
            got |= set(ns(t[0].index).tolist())
        want = set()
        for v in vte:
            raw = gen.ns(world.window(v, 1).index)
            want |= {t for t in world.aligned(v, apps, sr)[0] if ((raw >= t) & (raw < t + sr * 10 ** 9)).any()}
        mon.check(want <= got, "chunks.test_complete", "samples were never tested", missing=len(want - got))
    mon.state("chunks", len(vtr), len(vte), len(apps), common, gaps, nan, chunk, agg, epochs)


def owner(world, visits, frame, apps, agg):
    """The requested window this test frame holds the data of."""
    t = ns(frame.index).tolist()
    for v in visits:
        c = world.cells(v, 1, 6)
        A = [world.cells(v, world.meter_of(v, n), 6) for n in apps]
        if not all(x in c and all(x in q for q in A) for x in t):
            continue
        w = np.sum([[q[x] for x in t] for q in A], axis=0) if agg else [c[x] for x in t]
        if np.allclose(w, frame.values.reshape(-1), rtol=1e-5, atol=1e-2):
            return v
    return None


def ns(index):
    return gen.ns(index) if len(index) else np.array([], dtype="int64")


def frame_ok(mon, world, visits, mains, subs, apps, sr, agg, tag):
    t = ns(mains.index).tolist()
    for n, fs in subs:
        mon.check(np.array_equal(ns(fs[0].index), ns(mains.index)), tag + ".aligned", "appliance and mains on different instants", app=n)
        mon.check(not np.isnan(fs[0].values.astype(float)).any(), tag + ".nan")
    mon.check(not np.isnan(mains.values.astype(float)).any(), tag + ".nan")
    if not t:
        return
    cand = []
    for v in visits:
        c = world.cells(v, 1, sr)
        if not all(x in c for x in t):
            continue
        A = [world.cells(v, world.meter_of(v, n), sr) for n in apps]
        if not all(x in q for q in A for x in t):
            continue
        ok = all(np.allclose([q[x] for x in t], fs[0].values.reshape(-1), rtol=1e-5, atol=1e-3) for q, (n, fs) in zip(A, subs))
        w = np.sum([[q[x] for x in t] for q in A], axis=0) if agg else [c[x] for x in t]
        ok = ok and np.allclose(w, mains.values.reshape(-1), rtol=1e-5, atol=1e-2)
        cand.append(ok)
    mon.check(any(cand), tag + ".values", "training data is not that of the requested windows", count=len(t))
    mon.event("samples compared", len(t))


def w_helpers(mon, rng):
    """dropna, compute_loss and predict on their own."""
    api = API.__new__(API)
    api.site_only = False
    n, k = rng.choice([0, 1, 5, 40]), rng.randrange(0, 4)
    def frame(m):
        start = rng.randrange(0, 10)
        idx = pd.date_range("2013-01-01", periods=m, freq="6s", tz="UTC") + pd.Timedelta(seconds=6 * start)
        keep = rng.np.random(m) > 0.2
        v = np.round(rng.np.random(m) * 100, 2)
        v[rng.np.random(m) < 0.2] = np.nan
        return pd.DataFrame({("power", "active"): v[keep]}, index=idx[keep])
    mains, apps = frame(n), [frame(n) for _ in range(k)]
    keep_m, keep_a, objs = mains.copy(), [a.copy() for a in apps], list(apps)
    with contextlib.redirect_stdout(io.StringIO()):
        m2, a2 = api.dropna(mains, apps)
    sets = [set(ns(f.dropna().index).tolist()) for f in [keep_m] + keep_a]
    want = np.array(sorted(set.intersection(*sets)), dtype="int64")
    mon.equal(len(a2), k, "dropna.count")
    for f, orig in zip([m2] + a2, [keep_m] + keep_a):
        mon.check(np.array_equal(ns(f.index), want), "dropna.index", "not the common present samples")
        mon.check(np.array_equal(f.values.reshape(-1), orig.loc[f.index].values.reshape(-1)), "dropna.values")
    mon.check(mains.equals(keep_m) and all(a.equals(b) for a, b in zip(objs, keep_a)), "dropna.arguments", "the caller's frames were changed")
    # predict: padding is cut off, predictions keep the order and the truth's index
    n = rng.choice([3, 30])
    idx = pd.date_range("2013-01-01", periods=n, freq="6s", tz="UTC")
    names = rng.sample(TYPES, rng.randrange(1, 4))
    truth = [(a, [pd.DataFrame({("power", "active"): rng.np.integers(0, 1000, n).astype(float)}, index=idx)]) for a in names]
    spy = Spy("A", rng.sample(names, len(names)), rng.choice([3, 7]), pad=rng.choice([0, 4]))
    test = [pd.DataFrame({("power", "active"): np.zeros(n)}, index=idx)]
    with contextlib.redirect_stdout(io.StringIO()):
        gt, pred = api.predict(spy, test, truth, 6, "UTC")
    for a, fs in truth:
        mon.check(np.allclose(gt[a].values, fs[0].values.reshape(-1)), "predict.truth")
        mon.check(np.allclose(pred[a].values, spy.preds[0][0][a].values[:n]), "predict.values")
    mon.check(gt.index.equals(idx) and pred.index.equals(idx), "predict.index")
    loss = rng.choice([losses.mae, losses.rmse])
    got = api.compute_loss(gt, pred, loss)
    for a in names:
        mon.close(float(got[a]), formula(loss.__name__, gt[a], pred[a]), "loss.value", rtol=1e-5, app=a)
    mon.state("helpers", n, k, len(names), len(want) > 0)
    mon.event("helper answers", 3)


def w_mean(mon, rng):
    """The whole path with a real model: Mean predicts the trained mean, joint and chunk-wise alike."""
    apps = rng.sample(TYPES, rng.randrange(1, 3))
    world = World(rng, apps, True, 0, False)
    tr, vtr = world.request(rng)
    te, vte = world.request(rng)
    if not naive_ok(vtr + vte):
        return
    if any(not world.aligned(v, apps, 6)[0] for v in vtr + vte):
        return
    kw = {} if rng.chance(0.5) else {"chunk_size": rng.choice([1000, 5000])}
    m = Mean({})
    api = run(params(tr, te, apps, {"Mean": m}, ["mae", "rmse"], 6, **kw))
    for j, n in enumerate(apps):
        vals = np.concatenate([world.aligned(v, apps, 6)[2][j] for v in vtr])
        lab, _, a = world.aligned(vte[-1], apps, 6)
        pr = api.pred_overall["Mean"][n].values
        mon.check(np.allclose(pr, vals.mean(), rtol=1e-4), "mean.prediction", "prediction is not the mean of the training windows",
                  answer=float(pr[0]), expected=float(vals.mean()), app=n)
        mon.close(float(api.errors[-2]["Mean"][n]), mae(a[j], np.full(len(lab), vals.mean())), "mean.mae", rtol=1e-3, atol=1e-2)
    mon.event("models compared", len(apps))
    mon.state("mean", len(vtr), len(vte), len(apps), bool(kw))
