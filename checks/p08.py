"""P08: resampling on load."""
import copy
import warnings

import numpy as np
import pandas as pd

from checks import gen
from nilmtk.preprocessing import Apply
from nilmtk.timeframe import TimeFrame
from nilmtk.utils import normalise_timestamp, safe_resample

WORKLOADS = [("load", 120, 1500), ("direct", 80, 1000), ("sections", 60, 700), ("partition", 40, 400)]
RULE = ("irregular series (gaps shorter and longer than the fill limit, NaN, duplicate timestamps, DST changes, several "
        "columns) are loaded with random periods, aggregates, fill methods, limits, sections and chunk sizes and "
        "compared cell by cell with an independent integer-arithmetic resampler; distinct = (period class, aggregate, "
        "fill, gap pattern, sections)")
ASSUMPTIONS = ["the grid starts at local midnight of the first sample's day (pandas' default origin)",
               "each delivered chunk is resampled on its own, so filling does not cross chunks"]
TECHNIQUE = "differential monitor: resampled output vs integer-arithmetic reference resampler, cell by cell"
NOTE = "Held on the executions observed; every grid instant and value is compared."


def reference(df, period, how="mean", fill="ffill", limit=None):
    """Independent resampler -> (ns labels, values)."""
    t = gen.ns(df.index)
    v = df.values.astype(float)
    keep = np.concatenate([[True], np.diff(t) != 0])
    t, v = t[keep], v[keep]
    origin = df.index[0].normalize().value
    P = int(period) * 10 ** 9
    cell = (t - origin) // P
    n = int(cell[-1] - cell[0] + 1)
    out = np.full((n, v.shape[1]), np.nan)
    pos = cell - cell[0]
    starts = np.searchsorted(pos, np.arange(n), "left")
    ends = np.searchsorted(pos, np.arange(n), "right")
    for i in range(n):
        blk = v[starts[i]:ends[i]]
        for j in range(v.shape[1]):
            x = blk[:, j]
            x = x[~np.isnan(x)]
            if how == "sum":
                out[i, j] = x.sum()
            elif len(x):
                out[i, j] = dict(mean=np.mean, max=np.max, min=np.min, median=np.median,
                                 first=lambda a: a[0], last=lambda a: a[-1])[how](x)
    if fill:
        o = out if fill == "ffill" else out[::-1]
        for j in range(o.shape[1]):
            run = 0
            for i in range(1, n):
                if np.isnan(o[i, j]):
                    run += 1
                    if (limit is None or run <= limit) and not np.isnan(o[i - 1, j]):
                        o[i, j] = o[i - 1, j]
                else:
                    run = 0
        out = o if fill == "ffill" else o[::-1]
    return origin + (np.arange(n) + cell[0]) * P, out


def judge(mon, got, df, period, how, fill, limit, what):
    if not len(df):
        mon.equal(len(got), 0, what + ".empty")
        return
    lab, val = reference(df, period, how, fill, limit)
    mon.check(np.array_equal(gen.ns(got.index), lab), what + ".grid", "not the regular grid of the period",
              period=period, got=got.index, want=pd.to_datetime(lab), raw=df.index)
    g = got.values.astype(float).reshape(val.shape)
    ok = np.array_equal(np.isnan(g), np.isnan(val)) and np.allclose(g, val, rtol=1e-9, atol=1e-9, equal_nan=True)
    if not ok:
        bad = np.where(~np.isclose(g, val, rtol=1e-9, atol=1e-9, equal_nan=True))
        i, j = bad[0][0], bad[1][0]
        mon.check(False, what + ".values", "grid cell differs", cell=pd.Timestamp(lab[i]), column=j, got=g[i, j],
                  want=val[i, j], period=period, how=how, fill=fill, limit=limit)
    mon.check(True, what + ".values")
    mon.event("grid cells compared", val.size)
    mon.equal(str(got.index.tz), str(df.index.tz), what + ".tz")


def rand_df(rng, n=None, tz="Europe/London", dup=None):
    cols = [("power", "active"), ("power", "reactive"), ("voltage", "")][:rng.randrange(1, 4)]
    n = n or rng.choice([2, 5, 30, 120])
    df = gen.rand_frame_df(rng, n, cols, nan=rng.choice([0, 0, 0.2]), tz=tz, period=rng.choice([1, 6, 10, 60]),
                           gaps=rng.choice([0, 0.1, 0.3]), jitter=rng.choice([0, 0.3]), maxgap=rng.choice([3, 12, 60]),
                           start=rng.choice(["2013-10-26 22:00", "2013-10-27 00:50", "2014-03-30 00:40", "2013-06-07 11:59:58",
                                             "2013-06-07 22:58:59"]))
    if (rng.chance(0.2) if dup is None else dup):
        k = rng.randrange(n)
        df = pd.concat([df.iloc[:k + 1], df.iloc[k:k + 1] + 1, df.iloc[k + 1:]])
    return df, cols


def rand_resample(rng):
    rk = {}
    if rng.chance(0.4):
        rk["how"] = rng.choice(["mean", "max", "min", "sum", "median", "first", "last"])
    if rng.chance(0.3):
        rk["fill_method"] = rng.choice(["ffill", "bfill", None])
    if rng.chance(0.3):
        rk["limit"] = rng.choice([1, 2, 5, 100])
    return rk


def setup(rng):
    df, cols = rand_df(rng, dup=False)
    d = gen.Data()
    sp = rng.choice([1, 6, 10, 60])
    maxp = sp * rng.choice([1, 3, 5]) + rng.choice([0, 1])
    d.devices["d"] = gen.device("d", cols, sp, maxp)
    d.meter(1, 1, df, "d", site=True)
    d.appliance(1, "fridge", 1, [1])
    return d, df, cols, sp, maxp


def effective(rk, maxp, period):
    how = rk.get("how", "mean")
    fill = rk["fill_method"] if "fill_method" in rk else "ffill"
    limit = rk["limit"] if "limit" in rk else int(-(-maxp // period))
    return how, fill, limit


def w_load(mon, rng):
    d, df, cols, sp, maxp = setup(rng)
    ds = d.open()
    try:
        m = ds.buildings[1].elec[1]
        for _ in range(3):
            kw = {}
            k = rng.randrange(3)
            if k == 0:
                kw["resample"] = True
                period = sp
                if rng.chance(0.4):
                    kw["sample_period"] = None
            else:
                period = rng.choice([1, 2, 6, 7, 30, 60, 300, 3600])
                kw["sample_period"] = period if rng.chance(0.8) else float(period)
            if k == 2:
                kw["resample"] = True
            rk = rand_resample(rng)
            if rk or rng.chance(0.2):
                kw["resample_kwargs"] = rk
            pre = []
            if rng.chance(0.3):
                pre = [Apply(func=lambda x: x * 2)]
                kw["preprocessing"] = pre
            before = copy.deepcopy(rk)
            mon.note(kw, "device", sp, maxp)
            chunks = list(m.load(columns=cols, **kw))
            mon.equal(rk, before, "load.arguments", "caller's resample_kwargs changed")
            mon.equal(len(pre), 1 if "preprocessing" in kw else 0, "load.preprocessing_argument")
            mon.equal(len(chunks), 1, "load.one_chunk")
            got = chunks[0]
            src = df * 2 if "preprocessing" in kw else df
            mon.equal([tuple(c) for c in got.columns], cols, "load.columns")
            how, fill, limit = effective(rk, maxp, period)
            judge(mon, got, src, period, how, fill, limit, "load")
            mon.check(got.timeframe.start == df.index[0] and got.timeframe.end == df.index[-1], "load.timeframe",
                      "timeframe lost or changed by resampling", got=got.timeframe)
            mon.state(period, how, str(fill), limit, "pre" if pre else "")
        # not resampled by default
        raw = list(m.load(columns=cols, **rng.choice([{}, dict(sample_period=None), dict(resample=False, sample_period=30)])))[0]
        mon.check(gen.frames_equal(raw, df), "load.raw")
    finally:
        ds.store.close()


def w_direct(mon, rng):
    df, cols = rand_df(rng, tz=rng.choice([None, "UTC", "Europe/London", "US/Eastern"]))
    period = rng.choice([1, 2, 6, 7, 30, 60, 300, 3600])
    rk = rand_resample(rng)
    rk.setdefault("how", "mean")
    snap = df.copy(deep=True)
    arg = dict(rk, rule="%ds" % period)
    before = dict(arg)
    x = df if rng.chance(0.7) else df[cols[0]]
    mon.note(rk, period, df.index[0], len(df))
    got = safe_resample(x, **arg)
    mon.equal(arg, before, "direct.arguments")
    mon.check(gen.frames_equal(df, snap), "direct.input_unchanged")
    src = df if isinstance(x, pd.DataFrame) else df[[cols[0]]]
    judge(mon, got, src, period, rk["how"], rk.get("fill_method"), rk.get("limit"), "direct")
    mon.state("direct", period, rk["how"], str(rk.get("fill_method")), str(df.index.tz))
    empty = df.iloc[:0]
    mon.equal(len(safe_resample(empty, rule="6s", how="mean")), 0, "direct.empty")
    t = df.index[rng.randrange(len(df))] + pd.Timedelta(rng.randrange(10 ** 9), "ns")
    P = period * 10 ** 9
    o = t.normalize().value
    want = o + (t.value - o) // P * P
    nt = normalise_timestamp(t, "%ds" % period)
    mon.equal(nt.value, want, "normalise_timestamp", t=t, period=period)


def w_sections(mon, rng):
    d, df, cols, sp, maxp = setup(rng)
    ds = d.open()
    try:
        m = ds.buildings[1].elec[1]
        secs = gen.disjoint_sections(rng, df.index, rng.randrange(1, 5)) or None
        period = rng.choice([1, 6, 30, 60, 300])
        kw = dict(columns=cols)
        if secs and rng.chance(0.8):
            kw["sections"] = secs
        if rng.chance(0.5):
            kw["chunksize"] = rng.choice([2, 5, 20, 1000])
        raw = list(ds.store.load(gen.Data.key(1, 1), **kw))
        got = list(m.load(sample_period=period, **kw))
        mon.equal(len(got), len(raw), "sections.chunks")
        limit = int(-(-maxp // period))
        for g, r in zip(got, raw):
            judge(mon, g, r, period, "mean", "ffill", limit, "sections")
            mon.check(g.timeframe == r.timeframe, "sections.timeframe", got=g.timeframe, want=r.timeframe)
        mon.state(len(raw), period, "chunksize" in kw)
    finally:
        ds.store.close()


def w_partition(mon, rng):
    """Sections aligned to the grid give the same cells as one piece."""
    d, df, cols, sp, maxp = setup(rng)
    ds = d.open()
    try:
        m = ds.buildings[1].elec[1]
        period = rng.choice([6, 30, 60, 300])
        P = pd.Timedelta(period, "s")
        lo = df.index[0].floor("300s") if df.index[0].tz is None else \
            df.index[0].tz_convert("UTC").floor("300s").tz_convert(df.index.tz)
        span = (df.index[-1] - lo)
        k = int(span / P) + 1
        cuts = sorted({0, k} | {rng.randrange(0, k + 1) for _ in range(4)})
        secs = [TimeFrame(lo + P * a, lo + P * b) for a, b in zip(cuts, cuts[1:])]
        rk = dict(fill_method=None)
        whole = list(m.load(columns=cols, sample_period=period, resample_kwargs=dict(rk)))[0]
        parts = [c for c in m.load(columns=cols, sample_period=period, resample_kwargs=dict(rk), sections=secs)
                 if len(c)]
        got = pd.concat(parts)
        mon.check(not got.index.has_duplicates, "partition.cells", "a grid cell delivered twice")
        re = got.reindex(whole.index)
        mon.check(np.allclose(re.values.astype(float), whole.values.astype(float), equal_nan=True, rtol=1e-9),
                  "partition.same", "resampled values depend on how the data is cut")
        mon.check(got.dropna(how="all").index.isin(whole.index).all(), "partition.grid")
        mon.state("partition", len(parts), period)
    finally:
        ds.store.close()
