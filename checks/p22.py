"""P22: appliance power states and combinatorial optimisation."""
import numpy as np
import pandas as pd

from checks import gen
from nilmtk.disaggregate import CO
from nilmtk.feature_detectors.cluster import cluster
from nilmtk.feature_detectors.steady_states import cluster as cluster2
from nilmtk.utils import find_nearest

WORKLOADS = [("cluster", 90, 900), ("nearest", 500, 8000), ("co", 45, 450), ("states", 120, 2000), ("legacy", 40, 400)]
RULE = ("random appliance signals are clustered and judged against the data they came from; random arrays are matched "
        "with find_nearest against exhaustive search; random mains are disaggregated by combinatorial optimisation and "
        "compared with the best of all state combinations; distinct = (kind of data, #clusters, #appliances, #states, length)")
ASSUMPTIONS = ["single-column data", "ties between equally good combinations may be decided either way",
               "k-means may settle in a local optimum: exact centroids only judged for one or two well separated levels"]
TECHNIQUE = "optimality monitor: residual of each predicted combination vs exhaustive search over all combinations"
NOTE = "Held on the executions observed; each predicted sample is compared with the optimum over all combinations."


def series(rng, v, df):
    idx = gen.rand_index(rng, len(v), tz="UTC")
    return pd.DataFrame(v, index=idx, columns=gen.mi([("power", "active")])) if df else pd.Series(v, index=idx)


def appliance(rng):
    kind = rng.choice(["levels", "levels", "constant", "random", "few", "just", "zero", "long", "tenish"])
    n = rng.choice([60, 200, 600])
    levels = []
    if kind == "levels":
        a = rng.choice([50, 120, 800])
        levels = [a, a * rng.choice([4, 10])][:rng.randrange(1, 3)]
        v = rng.np.choice([0.0] + levels, n)
        for i, l in enumerate(levels):
            v[i * 25:i * 25 + 25] = l
    elif kind == "constant":
        levels = [rng.choice([11, 60, 2000])]
        v = np.full(n, float(levels[0]))
    elif kind == "random":
        v = rng.np.integers(0, 16000, n) / 8.0
    elif kind == "few":
        v = np.zeros(n)
        k = rng.choice([1, 5, 19])
        v[:k] = 500.0
    elif kind == "just":        # just enough readings
        levels = [rng.choice([11.0, 500.0])]
        v = rng.np.choice([0.0, 10.0], n)
        v[rng.np.choice(n, rng.choice([20, 20, 21]), replace=False)] = levels[0]
    elif kind == "zero":
        v = np.zeros(n)
    elif kind == "long":
        v = np.where(rng.np.random(4500) < 0.7, 1000.0, 0.0) + rng.np.integers(0, 8, 4500)
    else:
        levels = [10.5]
        v = rng.np.choice([9.0, 10.0, 10.5], n)
        v[:30] = 10.5
    if rng.chance(0.3) and kind in ("levels", "random"):
        hit = rng.np.random(len(v)) < 0.1
        hit[:60] = False
        v[hit] = np.nan
    return kind, v, levels


def w_cluster(mon, rng):
    kind, v, levels = appliance(rng)
    f = rng.choice([cluster, cluster, cluster2])
    mx = rng.choice([2, 3, 3, 4])
    kw = dict(max_num_clusters=mx)
    exact = None
    if f is cluster and rng.chance(0.25):
        exact = kw["exact_num_clusters"] = rng.choice([1, 2, 3])
    x = series(rng, v.copy(), rng.chance(0.5))
    keep = x.copy()
    c = f(x, **kw)
    mon.check(x.equals(keep), "cluster.argument_unchanged")
    mon.check(isinstance(c, np.ndarray) and c.dtype == np.int32 and c.ndim == 1, "cluster.type", got=repr(c))
    mon.check(bool(np.all(np.diff(c) > 0)), "cluster.sorted", "states not sorted and unique", got=c)
    mon.check(0 in c, "cluster.off_state", "the off state is missing", got=c)
    on = v[v > 10]
    if len(on) < 20:
        mon.equal(list(c), [0], "cluster.too_few", "states invented from fewer than 20 samples", n=len(on))
    else:
        mon.check(len(c) <= (exact if exact else mx - 1) + 1, "cluster.number", "more states than allowed", got=c, max=mx)
        nz = c[c != 0]
        mon.check(len(nz) and nz.min() >= np.floor(on.min()) and nz.max() <= np.ceil(on.max()), "cluster.range",
                  "a state lies outside the data", got=c, lo=on.min(), hi=on.max())
        lev = np.unique(on)
        if len(lev) == 1:
            mon.equal(list(c), [0, int(np.round(lev[0]))], "cluster.one_level", kind=kind)
        elif len(lev) == 2 and lev[1] >= 4 * lev[0] and (exact == 2 or (exact is None and mx == 3)):
            mon.equal(list(c), [0] + [int(l) for l in lev], "cluster.two_levels", exact=exact, max=mx)
        if exact == 1 or (exact is None and mx == 2):
            if len(on) <= 2000:
                mon.check(abs(int(nz[0]) - on.mean()) <= 0.500001 and len(nz) == 1, "cluster.mean", got=c, mean=on.mean())
    mon.state("cluster", kind, mx, exact, len(c), f is cluster)


def w_nearest(mon, rng):
    m, n = rng.choice([1, 2, 5, 40]), rng.choice([1, 3, 30])
    known = rng.np.integers(-20, 200, m) / rng.choice([1.0, 4.0])
    test = rng.np.integers(-40, 260, n) / rng.choice([1.0, 4.0])
    if rng.chance(0.3):
        test[:min(m, n)] = known[:min(m, n)]
    shape2 = rng.chance(0.4)
    t = test.reshape(-1, 1) if shape2 else test
    k0, t0 = known.copy(), t.copy()
    idx, res = find_nearest(known, t)
    mon.equal(np.shape(idx), np.shape(t), "nearest.shape")
    mon.equal(np.shape(res), np.shape(t), "nearest.shape")
    i, r = np.ravel(idx), np.ravel(res)
    best = np.abs(known[None, :] - test[:, None]).min(axis=1)
    mon.check(np.allclose(np.abs(known[i] - test), best, rtol=0, atol=1e-9), "nearest.optimal", known=known, test=test, got=i)
    mon.check(np.allclose(r, test - known[i], rtol=0, atol=1e-9), "nearest.residual", got=r)
    mon.check(np.array_equal(known, k0) and np.array_equal(t, t0), "nearest.arguments_unchanged")
    mon.state("nearest", m, n, shape2)


def judge(mon, rng, model, names):
    states = {d["appliance_name"]: np.asarray(d["states"], dtype=float) for d in model.model}
    mon.equal(sorted(states), sorted(names), "co.appliances")
    order = [d["appliance_name"] for d in model.model]
    sums = np.zeros(1)
    for a in order:
        sums = (sums[:, None] + states[a][None, :]).ravel()
    top = sums.max()
    tests = []
    for _ in range(rng.randrange(1, 4)):
        n = rng.choice([1, 10, 60])
        v = rng.np.integers(0, int(top * 8 * 1.3) + 8, n) / 8.0
        if rng.chance(0.5):
            v[: n // 2] = rng.np.choice(sums, n // 2)
        tests.append(pd.DataFrame(v.reshape(-1, 1), index=gen.rand_index(rng, n, tz="UTC"), columns=gen.mi([("power", "active")])))
    out = model.disaggregate_chunk(tests)
    mon.equal(len(out), len(tests), "co.one_per_chunk")
    for t, o in zip(tests, out):
        mon.check(o.index.equals(t.index), "co.index")
        mon.equal(sorted(o.columns), sorted(names), "co.columns")
        tot = np.zeros(len(t))
        for a in order:
            p = o[a].values.astype(float)
            mon.check(np.isin(p, states[a]).all(), "co.levels", "a predicted power is no state of the appliance", appliance=a)
            tot += p
        best = np.abs(sums[None, :] - t.values).min(axis=1)
        mon.check(np.allclose(np.abs(tot - t.values.ravel()), best, rtol=0, atol=1e-3), "co.optimal",
                  "another combination of states is closer to the mains", mains=t.values.ravel()[:10], got=tot[:10], best=best[:10])
        mon.event("samples disaggregated", len(t))


def w_co(mon, rng):
    model = CO({})
    names = []
    for call in range(rng.randrange(1, 4)):
        train = []
        mains = [series(rng, np.zeros(5), True)]
        for _ in range(rng.randrange(1, 3)):
            a = "app%d" % len(names)
            kind, v, _ = appliance(rng)
            parts = [series(rng, x, True) for x in np.array_split(v, rng.randrange(1, 3))]
            train.append((a, parts))
            names.append(a)
        before = {d["appliance_name"]: list(d["states"]) for d in model.model}
        if call and rng.chance(0.5):    # train an old one again: keeps its states
            train.append((names[0], [series(rng, np.full(100, 777.0), True)]))
        model.partial_fit(mains, train)
        for d in model.model:
            if d["appliance_name"] in before:
                mon.equal(list(d["states"]), before[d["appliance_name"]], "co.retrain")
        judge(mon, rng, model, names)
    mon.state("co", len(names), call, [len(d["states"]) for d in model.model])


def w_states(mon, rng):
    """Arbitrary learnt states (as loaded from a model)."""
    model = CO({})
    k = rng.randrange(1, 6)
    names = ["a%d" % i for i in range(k)]
    for a in names:
        s = sorted({0} | {rng.choice([rng.randrange(1, 3000), rng.randrange(1, 60)]) for _ in range(rng.randrange(1, 4))})
        model.model.append({"states": np.array(s, dtype=np.int32), "appliance_name": a})
    judge(mon, rng, model, names)
    mon.state("states", k, [len(d["states"]) for d in model.model])


class Meter(object):
    def __init__(self, i, chunks):
        self.i, self.chunks, self.name = i, chunks, None

    def instance(self):
        return self.i

    def power_series(self, **kwargs):
        return iter([c.copy() for c in self.chunks])


class Group(object):
    def __init__(self, mains, subs):
        self.meters, self.subs = mains + subs, subs

    def submeters(self):
        return Group([], self.subs)


def w_legacy(mon, rng):
    """The legacy implementation, with prescribed numbers of states, over several chunks."""
    from nilmtk.legacy.disaggregate import CombinatorialOptimisation
    n = rng.choice([1, 2, 3, 4, 13])
    meters, data = [], {}
    for i in range(2, n + 2):
        kind, v, _ = appliance(rng)
        while n > 4 and kind == "long":
            kind, v, _ = appliance(rng)
        v = np.nan_to_num(v)
        chunks = [series(rng, v, False)]
        if rng.chance(0.2):     # only the first chunk is used for training (documented)
            chunks.append(series(rng, np.full(50, 77777.0), False))
        meters.append(Meter(i, chunks))
        data[i] = v
    counts = {m: rng.choice([1, 2, 2, 3]) + 1 for m in meters if rng.chance(0.5)} if rng.chance(0.7) and n < 5 else {}
    co = CombinatorialOptimisation()
    mon.raises(RuntimeError, lambda: co.disaggregate_chunk(series(rng, np.zeros(200), False)), "legacy.untrained")
    if rng.chance(0.5) or counts:
        co.train(Group([Meter(1, [])], meters), num_states_dict=dict(counts) if counts or rng.chance(0.5) else None)
    else:
        for m in meters:
            co.train_on_chunk(m.chunks[0].copy(), m, 3, None)
        mon.raises(RuntimeError, lambda: co.train_on_chunk(meters[0].chunks[0], meters[0], 3, None), "legacy.trained_twice")
    mon.raises(RuntimeError, lambda: co.train(Group([], meters)), "legacy.second_training")
    mon.equal(sorted(m["training_metadata"].i for m in co.model), sorted(data), "legacy.meters")
    states = {}
    for m in co.model:
        i = m["training_metadata"].i
        c = states[i] = np.asarray(m["states"])
        on = data[i][data[i] > 10]
        mon.check(bool(np.all(np.diff(c) > 0)) and 0 in c, "legacy.states_sorted", states=c)
        if len(on) < 20:
            mon.equal(list(c), [0], "legacy.too_few", n=len(on))
            continue
        most = counts.get(m["training_metadata"], 3)
        mon.check(2 <= len(c) <= most, "legacy.number_of_states", "number of states", states=c, allowed=most)
        nz = c[c != 0]
        mon.check(nz.min() >= np.floor(on.min()) and nz.max() <= np.ceil(on.max()), "legacy.range", states=c, lo=on.min(), hi=on.max())
        if len(np.unique(on)) == 1:
            mon.equal(list(c), [0, int(np.round(on[0]))], "legacy.one_level")
    later = []
    if rng.chance(0.3) and len(counts) == 0 and 1 < n < 5:      # an appliance learnt after the first disaggregation takes part in the next
        later = [co.model.pop()]
        co.disaggregate_chunk(series(rng, np.full(120, 500.0), False))
        co.train_on_chunk(later[0]["training_metadata"].chunks[0].copy(), later[0]["training_metadata"], 3, None)
        states[later[0]["training_metadata"].i] = np.asarray(co.model[-1]["states"])
        mon.event("appliances learnt later")
    order = [m["training_metadata"] for m in co.model]
    sums = np.zeros(1)
    for m in order:
        sums = (sums[:, None] + states[m.i][None, :].astype(float)).ravel()
    for _ in range(2):
        k = rng.choice([100, 150])
        v = rng.np.integers(0, int(sums.max() * 8 * 1.3) + 8, k) / 8.0
        v[: k // 2] = rng.np.choice(sums, k // 2)
        mains = series(rng, v, False)
        keep = mains.copy()
        out = co.disaggregate_chunk(mains)
        mon.check(mains.equals(keep), "legacy.mains_unchanged")
        mon.check(out.index.equals(mains.index), "legacy.index")
        mon.equal(sorted(m.i for m in out.columns), sorted(data), "legacy.columns")
        tot = np.zeros(k)
        for m in order:
            p = out[m].values.astype(float)
            mon.check(np.isin(p, states[m.i]).all(), "legacy.levels", "a predicted power is no state of the appliance", meter=m.i)
            tot += p
        best = np.array([np.abs(sums - x).min() for x in v])
        mon.check(np.allclose(np.abs(tot - v), best, rtol=0, atol=1e-3), "legacy.optimal",
                  "another combination of states is closer to the mains", mains=v[:10], got=tot[:10], best=best[:10])
        mon.event("samples disaggregated by the legacy implementation", k)
    mon.raises(RuntimeError, lambda: co.disaggregate_chunk(series(rng, np.zeros(99), False)), "legacy.too_short")
    mon.state("legacy", n, len(counts), tuple(sorted(len(c) for c in states.values())))
