"""P14: preprocessing and statistics pipelines."""
import copy
import warnings

import numpy as np
import pandas as pd

from checks import gen
from checks.p08 import reference
from nilmtk.node import Node, UnsatisfiedRequirementsError, find_unsatisfied_requirements
from nilmtk.preprocessing import Apply, Clip
from nilmtk.stats import GoodSections, TotalEnergy, DropoutRate
from nilmtk.stats.histogram import histogram_from_generator
from nilmtk.timeframe import TimeFrame

WORKLOADS = [("clip", 150, 1500), ("load", 60, 600), ("resampled", 40, 400), ("requirements", 150, 2000), ("chain", 80, 800), ("histogram", 80, 800)]
RULE = ("random chunk streams pass through Clip and Apply with limits from the metadata or the node and every cell is compared "
        "with the limited original; random requirement dictionaries are compared with an independent matcher; random node "
        "chains must refuse to run exactly when a requirement is unmet; chunked histograms are compared with one histogram of "
        "all samples; distinct = (columns, limits given, chunks, order of nodes)")
ASSUMPTIONS = ["lower limits do not exceed upper limits", "requirement and state dictionaries have the same shape where both have a key"]
TECHNIQUE = "pipeline monitor: cells after each node vs independently transformed originals; requirement checks vs independent matcher"
NOTE = "Held on the executions observed; every cell delivered by a pipeline is compared."


class Source(object):
    """Upstream delivering given chunks."""

    def __init__(self, metadata, chunks=()):
        self.metadata, self.chunks = metadata, chunks

    def dry_run_metadata(self):
        return self.metadata

    get_metadata = dry_run_metadata

    def process(self):
        for c in self.chunks:
            yield c


def limited(v, lower, upper):
    out = v.copy()
    for i in range(len(out)):
        if lower is not None and out[i] < lower:
            out[i] = lower
        if upper is not None and out[i] > upper:
            out[i] = upper
    return out


def rand_limits(rng):
    lo = rng.choice([None, 0, 10, -5, 200.5])
    up = rng.choice([None, 1000, 400, 2999.875, 300])
    return lo, up


def want_clip(df, limits, node=(None, None)):
    out = df.copy()
    for j, c in enumerate(df.columns):
        lo, up = limits.get(tuple(c), (None, None))
        lo = node[0] if node[0] is not None else lo
        up = node[1] if node[1] is not None else up
        out.iloc[:, j] = limited(df.iloc[:, j].values.astype(float), lo, up)
    return out


def measurements(limits):
    ms = []
    for (pq, t), (lo, up) in limits.items():
        m = dict(physical_quantity=pq)
        if t:
            m["type"] = t
        if lo is not None:
            m["lower_limit"] = lo
        if up is not None:
            m["upper_limit"] = up
        ms.append(m)
    return ms


def rand_chunks(rng, cols, n):
    chunks = []
    df = gen.rand_frame_df(rng, n, cols, nan=rng.choice([0, 0.2]))
    df = df - rng.choice([0, 500])
    cuts = sorted(rng.randrange(0, n + 1) for _ in range(rng.randrange(0, 4)))
    for a, b in zip([0] + cuts, cuts + [n]):
        c = df.iloc[a:b].copy()
        c.timeframe = TimeFrame(df.index[min(a, n - 1)], df.index[min(b, n - 1)]) if a < min(b, n - 1) else TimeFrame()
        if rng.chance(0.5):
            c.look_ahead = df.iloc[b:b + 2].copy()
        chunks.append(c)
    return chunks


def w_clip(mon, rng):
    cols = rng.sample(gen.COLUMNS, rng.randrange(1, 5))
    limits = {c: rand_limits(rng) for c in cols}
    unknown = rng.chance(0.2)
    if unknown:
        limits.pop(rng.choice(cols))
    chunks = rand_chunks(rng, cols, rng.choice([1, 5, 40]))
    orig = [c.copy() for c in chunks]
    tfs = [c.timeframe for c in chunks]
    las = [getattr(c, "look_ahead", None) for c in chunks]
    md = {"device": {"measurements": measurements(limits), "max_sample_period": 10, "sample_period": 1}}
    md0 = copy.deepcopy(md)
    clip = Clip(Source(md, chunks))
    node = (None, None)
    if rng.chance(0.35):
        node = rand_limits(rng)
        clip.lower, clip.upper = node
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = list(clip.process())
    mon.equal(len(got), len(orig), "clip.chunks")
    for g, o, tf, la in zip(got, orig, tfs, las):
        want = want_clip(o, limits, node)
        mon.check(gen.frames_equal(g, want), "clip.cells", "a value is not the original limited to the limits",
                  limits=limits, node=node, got=g.values.tolist(), want=want.values.tolist())
        mon.check(g.timeframe == tf, "clip.timeframe")
        if la is not None:
            mon.check(getattr(g, "look_ahead", None) is not None and list(g.look_ahead.index) == list(la.index), "clip.look_ahead")
        mon.event("cells limited", int(np.nansum(want.values != o.values) if o.size else 0))
        mon.event("cells compared", o.size)
    mon.equal(md, md0, "clip.metadata")
    mon.state("clip", len(cols), tuple(sorted((a is None, b is None) for a, b in limits.values())), len(got), node[0] is None, node[1] is None, unknown)


def w_load(mon, rng):
    d = gen.Data("p14-%d" % rng.randrange(10 ** 9), rng.choice(["UTC", "Europe/London"]))
    cols = rng.sample(gen.COLUMNS, rng.randrange(1, 4))
    limits = {c: rand_limits(rng) for c in cols}
    df = gen.rand_frame_df(rng, rng.choice([3, 30]), cols, tz=d.tz, nan=0.1) - rng.choice([0, 300])
    name = d.name + "dev"
    dev = gen.device(name, cols, 1, 60)
    dev["measurements"] = measurements(limits)
    d.devices[name] = dev
    d.meter(1, 1, df, name, site=True)
    ds = d.open()
    try:
        m = ds.buildings[1].elec[1]
        k = rng.choice([2, 0.5, -1])
        ops, nodes = [], []
        for _ in range(rng.randrange(1, 4)):
            if rng.chance(0.5):
                ops.append("clip")
                nodes.append(Clip())
            else:
                ops.append("scale")
                nodes.append(Apply(func=lambda c: c * k))
        kw = {}
        if rng.chance(0.5):
            kw["chunksize"] = rng.choice([2, 7, 100])
        for again in range(2):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                raw = [(c.copy(), c.timeframe) for c in m.load(**dict(kw))]
                got = [(c.copy(), c.timeframe) for c in m.load(preprocessing=list(nodes), **dict(kw))]
            mon.equal(len(got), len(raw), "load.chunks")
            for (g, gt), (r, rt) in zip(got, raw):
                want = r
                for op in ops:
                    want = want_clip(want, limits) if op == "clip" else want * k
                mon.check(gen.frames_equal(g, want), "load.cells", "preprocessing nodes not applied in order", ops=ops,
                          limits=limits, got=g.values.tolist(), want=want.values.tolist())
                mon.check(gt == rt, "load.timeframe")
                mon.event("loaded cells compared", r.size)
        stored = gen.frames_equal(pd.concat([c for c in ds.store.load(d.key(1, 1))]), d.df(1, 1)) if "chunksize" not in kw else True
        mon.check(stored, "load.store_unchanged", "preprocessing changed the stored data")
        mon.state("load", tuple(ops), kw.get("chunksize"), len(got))
    finally:
        ds.store.close()


def w_resampled(mon, rng):
    """Resampling comes after the preprocessing nodes."""
    d = gen.Data("p14-%d" % rng.randrange(10 ** 9), rng.choice(["UTC", "Europe/London"]))
    cols = rng.sample(gen.COLUMNS, rng.randrange(1, 3))
    limits = {c: rand_limits(rng) for c in cols}
    n = rng.choice([20, 80, 300])
    idx = gen.rand_index(rng, n, period=rng.choice([1, 5]), gaps=rng.choice([0, 0.05]), tz=d.tz)
    v = rng.np.choice([-300.0, -5.0, 0.0, 7.25, 90.0, 350.0, 1500.0], size=(n, len(cols)))
    df = pd.DataFrame(v, index=idx, columns=gen.mi(cols))
    name = d.name + "dev"
    dev = gen.device(name, cols, 1, 60)
    dev["measurements"] = measurements(limits)
    d.devices[name] = dev
    d.meter(1, 1, df, name, site=True)
    ds = d.open()
    try:
        m = ds.buildings[1].elec[1]
        sp = rng.choice([10, 30, 60])
        ops = [rng.choice(["clip", "abs", "square", "scale"]) for _ in range(rng.randrange(1, 4))]
        fs = dict(abs=lambda c: c.abs(), square=lambda c: c * c, scale=lambda c: c * 0.5)
        nodes = [Clip() if o == "clip" else Apply(func=fs[o]) for o in ops]
        stored = d.df(1, 1)
        want = stored
        for o in ops:
            want = want_clip(want, limits) if o == "clip" else fs[o](want)
        kw = dict(resample_kwargs=dict(how=rng.choice(["mean", "max", "min"]))) if rng.chance(0.5) else {}
        how = kw.get("resample_kwargs", {}).get("how", "mean")
        lab, val = reference(want, sp, how, "ffill", -(-60 // sp))
        listed = list(nodes)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = list(m.load(sample_period=sp, preprocessing=nodes, **copy.deepcopy(kw)))
        mon.equal(nodes, listed, "resampled.nodes", "the caller's list of nodes was changed")
        mon.equal(len(got), 1, "resampled.chunks")
        g = got[0]
        order = [list(g.columns).index(c) for c in stored.columns]
        gv = g.values[:, order]
        same = np.array_equal(gen.ns(g.index), lab) and gv.shape == val.shape and bool(np.all(
            (np.abs(gv - val) <= 1e-6 * (1 + np.abs(val))) | (np.isnan(gv) & np.isnan(val))))
        mon.check(same, "resampled.cells", "the preprocessed values, resampled", ops=ops, period=sp, how=how, limits=limits,
                  got=gv.tolist()[:20], want=val.tolist()[:20])
        mon.event("resampled cells compared", val.size)
        mon.state("resampled", tuple(ops), sp, how)
    finally:
        ds.store.close()


# --- requirements -----------------------------------------------------------
KEYS = ["a", "b", "c", "d"]


def rand_req(rng, depth):
    out = {}
    for k in rng.sample(KEYS, rng.randrange(0 if depth == 2 else 1, 4)):
        if depth and rng.chance(0.4):
            out[k] = rand_req(rng, depth - 1)
        else:
            out[k] = rng.choice(["ANY VALUE", 1, True, "x", None])
    return out


def rand_state(rng, req):
    st = {}
    for k, v in req.items():
        if rng.chance(0.25):
            continue
        if isinstance(v, dict):
            st[k] = rand_state(rng, v)
        elif v == "ANY VALUE":
            st[k] = rng.choice([None, 0, "", [], {"z": 1}, "ANY VALUE"])
        else:
            st[k] = v if rng.chance(0.6) else rng.choice(["other", 2, 0, None])
    for k in KEYS + ["e"]:
        if k not in req and rng.chance(0.3):
            st[k] = rng.choice([1, {"a": 1}, None])
    return st


def count_unmet(st, req):
    n = 0
    for k, v in req.items():
        if k not in st:
            n += 1
        elif isinstance(v, dict):
            n += count_unmet(st[k], v)
        elif not (isinstance(v, str) and v == "ANY VALUE") and st[k] != v:
            n += 1
    return n


def w_requirements(mon, rng):
    for _ in range(10):
        req = rand_req(rng, 2)
        st = rand_state(rng, req)
        r0, s0 = copy.deepcopy(req), copy.deepcopy(st)
        got = find_unsatisfied_requirements(st, req)
        mon.equal(len(got), count_unmet(st, req), "requirements.count", "number of unmet requirements", state=st, requirements=req)
        mon.check(all(isinstance(s, str) for s in got), "requirements.messages")
        mon.equal((req, st), (r0, s0), "requirements.arguments")
        mon.state("req", min(len(got), 3), len(req), any(isinstance(v, dict) for v in req.values()))


def w_chain(mon, rng):
    """Chains of real and synthetic nodes run iff every node's requirements are met upstream."""
    base = {"device": {"max_sample_period": 10, "sample_period": 1, "measurements": measurements({("power", "active"): (0, 4000)})}}
    for k in list(base["device"]):
        if rng.chance(0.15):
            del base["device"][k]
    if rng.chance(0.1):
        base = {}
    if rng.chance(0.4):
        base["statistics"] = {"contiguous": rng.choice([1, [1, 2]])}
    df = gen.rand_frame_df(rng, 12, [("power", "active")], period=1, gaps=0)
    df.timeframe = TimeFrame(df.index[0], df.index[-1])
    reqs = {Clip: {"device": {"measurements": "ANY VALUE"}},
            TotalEnergy: {"device": {"max_sample_period": "ANY VALUE"}, "preprocessing_applied": {"clip": "ANY VALUE"}},
            GoodSections: {"device": {"max_sample_period": "ANY VALUE"}},
            DropoutRate: {"device": {"sample_period": "ANY VALUE"}}, Apply: {}}
    post = {Clip: {"preprocessing_applied": {"clip": {}}}, TotalEnergy: {"statistics": {"energy": {}}},
            GoodSections: {"statistics": {"good_sections": []}}, DropoutRate: {"statistics": {"dropout_rate": None}}, Apply: {}}
    classes = [rng.choice([Clip, Clip, TotalEnergy, GoodSections, DropoutRate, Apply]) for _ in range(rng.randrange(1, 5))]
    post0 = {c: copy.deepcopy(c.postconditions) for c in reqs}
    base0 = copy.deepcopy(base)
    state = copy.deepcopy(base)
    ok = True
    node = Source(base, [df])
    nodes = []

    def merge(a, b):
        for k, v in b.items():
            if isinstance(v, dict) and isinstance(a.get(k), dict):
                merge(a[k], v)
            else:
                a.setdefault(k, copy.deepcopy(v))

    # a node is allowed to consume metadata eagerly, hence only the verdict is judged
    for c in classes:
        if count_unmet(state, reqs[c]) if all(isinstance(state.get(k), dict) or k not in state for k in reqs[c]) else 0:
            ok = False
        merge(state, post[c])
        node = c(node, func=lambda x: x) if c is Apply else c(node)
        nodes.append(node)
    try:
        node.run()
        ran = True
    except UnsatisfiedRequirementsError:
        ran = False
    except KeyError as e:
        mon.check(not ok, "chain.error", "a chain with met requirements failed", error=e, chain=[c.__name__ for c in classes], metadata=base0)
        ran = False
    mon.equal(ran, ok, "chain.verdict", "a pipeline must run exactly when its requirements are met",
              chain=[c.__name__ for c in classes], metadata=base0)
    mon.equal(base, base0, "chain.metadata", "running a pipeline changed the source's metadata")
    for c in reqs:
        mon.equal(c.postconditions, post0[c], "chain.postconditions", "a class' postconditions were changed")
    if ran:
        dry = node.dry_run_metadata()
        real = node.get_metadata()
        mon.check(isinstance(dry, dict) and isinstance(real, dict), "chain.dicts")
        for k in base0:
            for name, md in (("dry", dry), ("real", real)):
                if k == "statistics":
                    mon.equal(md.get(k, {}).get("contiguous"), base0[k]["contiguous"], "chain.%s_keeps" % name)
                else:
                    mon.equal(md.get(k), base0[k], "chain.%s_keeps" % name)
        mon.equal(base, base0, "chain.metadata", "asking a pipeline for its metadata changed the source's")
    mon.state("chain", tuple(c.__name__ for c in classes), ran)
    mon.event("chains refused", 0 if ran else 1)


def w_histogram(mon, rng):
    n = rng.choice([1, 10, 200])
    v = rng.np.integers(0, 400, n) / 4.0
    lo, up = rng.choice([(0, 100), (10, 60), (0, 101)])
    bins = rng.choice([1, 5, 10, 37])
    cuts = sorted(rng.randrange(0, n + 1) for _ in range(rng.randrange(0, 4)))
    chunks = [pd.Series(v[a:b]) for a, b in zip([0] + cuts, cuts + [n])]
    if rng.chance(0.4):
        chunks = [c + 7.5 for c in chunks]
        v = v + 7.5
    mode = rng.randrange(5)
    kw, first = dict(bins=bins, range=(lo, up)), chunks[0]
    if mode == 1:
        kw = dict(range=(lo, up))
        bins = up - lo
    elif mode == 2 and len(first) and first.max() > lo:
        kw = dict(bins=bins, range=(lo, None))
        up = first.max()
    elif mode == 3 and len(first) and first.min() < up:
        kw = dict(bins=bins, range=(None, up))
        lo = first.min()
    elif mode == 4 and len(first) and first.min() < first.max():
        kw = dict(bins=bins)
        lo, up = first.min(), first.max()
    hist, edges = histogram_from_generator(iter(chunks), **kw)
    want, wedges = np.histogram(v, bins=bins, range=(lo, up))
    mon.check(np.array_equal(hist, want), "histogram.counts", "chunked histogram differs from that of all samples",
              got=list(hist), want=list(want), mode=mode, cuts=cuts)
    mon.check(np.allclose(edges, wedges), "histogram.edges", got=list(edges), want=list(wedges))
    mon.state("histogram", mode, len(chunks), n)
