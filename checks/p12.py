"""P12: dropout rate."""
import numpy as np
import pandas as pd

from checks import gen
from checks.p10 import section_rows
from checks.p11 import as_pairs, expected, gap_df
from nilmtk.stats.dropoutrate import get_dropout_rate
from nilmtk.timeframe import TimeFrame

WORKLOADS = [("function", 300, 4000), ("meter", 120, 1500), ("group", 40, 400)]
RULE = ("series with 0-100 percent of the expected samples (jitter, oversampling, too few samples), whole meters with "
        "and without gaps ignored, windows and section lists, and groups; rates are compared with counted and expected "
        "samples per section, weighted by samples; distinct = (#samples class, lost class, ignore_gaps, #sections)")
ASSUMPTIONS = ["fewer than five samples give no rate (NaN)"]
TECHNIQUE = "online checker: reported rate vs counted and expected samples of every section"
NOTE = "Held on the executions observed; every reported rate is compared."


def rate(t, sp):
    if len(t) < 5:
        return None
    exp = round((t[-1] - t[0]) / 1e9 / sp) + 1
    return max(0.0, 1 - len(t) / exp)


def w_function(mon, rng):
    sp = rng.choice([1, 3, 6, 60, 0.5])
    n = rng.choice([0, 1, 4, 5, 6, 50, 200])
    keep = rng.choice([1.0, 0.9, 0.5, 0.1])
    base = np.arange(max(n, 1)) * int(sp * 1e9)
    mask = rng.np.random(len(base)) < keep
    if len(mask) > 1:
        mask[0] = mask[-1] = True
    t = base[mask][:n if n < 5 else None] + pd.Timestamp("2013-01-01").value
    if n == 0:
        t = t[:0]
    if rng.chance(0.3) and len(t) > 1:
        t = np.sort(np.concatenate([t, t[:-1] + 10 ** 7]))
    idx = pd.to_datetime(t)
    data = rng.choice([pd.Series(1.0, index=idx), pd.DataFrame({"a": np.ones(len(t))}, index=idx), idx])
    got = get_dropout_rate(data, sp)
    want = rate(t, sp)
    mon.note(n, keep, sp)
    if want is None:
        mon.check(np.isnan(got), "function.too_few", got=got, n=len(t))
    else:
        mon.close(got, want, "function.rate", n=len(t), period=sp)
        mon.check(0 <= got <= 1, "function.range", got=got)
    mon.state("function", min(len(t), 6), keep, type(data).__name__)


def weighted(groups, sp):
    rs = [(rate(gen.ns(g.index), sp), len(g)) for g in groups]
    rs = [(r, n) for r, n in rs if r is not None]
    if not rs:
        return None
    return sum(r * n for r, n in rs) / sum(n for _, n in rs)


def make(rng, d=None, i=1):
    maxp = rng.choice([3, 10])
    df = gap_df(rng, rng.choice([3, 5, 30, 100]), maxp)
    d = d or gen.Data()
    d.devices["d%d" % i] = gen.device("d%d" % i, [("power", "active")], 1, maxp)
    d.meter(1, i, df, "d%d" % i, of=1, site=i == 1)
    d.appliance(1, "fridge", i, [i])
    return d, df, maxp


def reference(df, maxp, w, use, ignore):
    if ignore:
        gs = expected(df, w, use, maxp, None)
        secs = []
        for k, (a, b) in enumerate(gs):
            tf = TimeFrame(pd.Timestamp(a, tz="UTC"), pd.Timestamp(b, tz="UTC"))
            tf.include_end = k == len(gs) - 1
            secs.append(tf)
    else:
        secs = use
    groups = [section_rows(df, w, s) for s in secs]
    return weighted([g for g in groups if len(g)], 1)


def w_meter(mon, rng):
    d, df, maxp = make(rng)
    ds = d.open()
    try:
        m = ds.buildings[1].elec[1]
        w = rng.choice([TimeFrame(), gen.rand_tf(rng, df.index, p_open=0.3, inclusive=0)])
        ds.store.window = w
        kw = {}
        secs = gen.disjoint_sections(rng, df.index, rng.randrange(1, 4), inclusive=0) if rng.chance(0.4) else None
        if secs:
            kw["sections"] = use = secs
        else:
            tf = m.get_timeframe()
            if tf.empty:
                return
            tf.include_end = True
            use = [tf]
        ignore = rng.chance(0.5)
        want = reference(df, maxp, w, use, ignore)
        mon.note(kw, w, ignore, maxp)
        for rep in range(2):
            if rng.chance(0.3):
                got = m.dropout_rate(ignore_gaps=ignore, full_results=True, **kw).combined()
            else:
                got = m.dropout_rate(ignore_gaps=ignore, **kw)
            if want is None:
                mon.check(np.isnan(got), "meter.too_few", got=got, sections=use)
            else:
                mon.close(float(got), want, "meter.rate", ignore_gaps=ignore, sections=use, window=w)
                mon.check(0 <= got <= 1, "meter.range")
        mon.state("meter", ignore, len(use), want is None, round(want or 0, 1))
    finally:
        ds.store.close()


def w_group(mon, rng):
    d = gen.Data()
    want = []
    ignore = rng.chance(0.5)
    for i in range(1, rng.randrange(2, 5)):
        _, df, maxp = make(rng, d, i)
        tf = TimeFrame(df.index[0], df.index[-1])
        tf.include_end = True
        want.append(reference(df, maxp, TimeFrame(), [tf], ignore))
    ds = d.open()
    try:
        got = ds.buildings[1].elec.dropout_rate(ignore_gaps=ignore)
        if any(x is None for x in want):
            mon.check(np.isnan(got), "group.too_few", got=got)
        else:
            mon.close(got, sum(want) / len(want), "group.mean", per_meter=want)
        dfs = [d.df(1, i) for i in sorted(d.buildings[1]["meters"])]
        if len(dfs) == 2:
            # full results of both meters, section by section
            lo, hi = max(x.index[0] for x in dfs), min(x.index[-1] for x in dfs)
            if lo < hi:
                cut = lo + (hi - lo) / 2
                secs = [TimeFrame(lo, cut), TimeFrame(cut, hi)]
                res = ds.buildings[1].elec.dropout_rate(ignore_gaps=False, full_results=True, sections=secs)
                each = [m.dropout_rate(ignore_gaps=False, full_results=True, sections=secs)._data for m in ds.buildings[1].elec.meters]
                if all(len(e) == 2 for e in each):
                    for k in range(2):
                        r = [e["dropout_rate"].iloc[k] for e in each]
                        n = [e["n_samples"].iloc[k] for e in each]
                        mon.equal(int(res._data["n_samples"].iloc[k]), int(sum(n)), "group.full_samples", "samples of both meters are not added")
                        mon.close(float(res._data["dropout_rate"].iloc[k]), sum(r) / 2, "group.full_rate", "not the mean of the meters' rates")
                    mon.event("joint sections compared", 2)
        mon.state("group", len(want), ignore)
    finally:
        ds.store.close()
