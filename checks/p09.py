"""P09: a meter group is the sum of its meters."""
import numpy as np
import pandas as pd

from checks import gen
from checks.p08 import reference
from nilmtk.metergroup import MeterGroup
from nilmtk.timeframe import TimeFrame

WORKLOADS = [("group", 60, 700), ("columns", 40, 500), ("frame", 50, 600)]
RULE = ("groups of 1-5 meters (different spans, gaps, devices, zones, AC types, nested groups) are loaded with random "
        "periods, sections and chunk sizes and compared cell by cell with the sum (or mean) of independently resampled "
        "member tables; distinct = (#meters, period, #sections, chunked, columns)")
ASSUMPTIONS = ["sample periods are whole seconds and divide one hour", "section ends are excluded (documented)",
               "single-precision accumulation: relative tolerance 1e-5"]
TECHNIQUE = "conservation monitor: group total vs sum of member meters, cell by cell"
NOTE = "Held on the executions observed; every delivered grid cell is compared."
SUM = {"power", "energy", "cumulative energy", "current"}


def members(rng, tz, cols_pool, same=False):
    d = gen.Data(tz=tz)
    nm = rng.randrange(1, 6)
    start = pd.Timestamp(rng.choice(["2013-10-26 22:00", "2013-10-27 00:10", "2014-03-30 00:30", "2013-06-07 11:59:58"]))
    for i in range(1, nm + 1):
        cols = list(cols_pool) if same else rng.sample(cols_pool, rng.randrange(1, len(cols_pool) + 1))
        sp = rng.choice([1, 6, 10])
        d.devices["d%d" % i] = gen.device("d%d" % i, cols, sp, sp * rng.choice([2, 5]))
        df = gen.rand_frame_df(rng, rng.choice([3, 40, 150]), cols, nan=rng.choice([0, 0.1]), tz=tz, period=sp,
                               start=start + pd.Timedelta(rng.choice([0, 0, 7, 333, 1200]), "s"),
                               gaps=rng.choice([0, 0.1]), maxgap=30, jitter=rng.choice([0, 0.2]))
        d.meter(1, i, df, "d%d" % i, of=1, site=i == 1)
        d.appliance(1, "fridge", i, [i])
    return d


def cells(df, period, maxp):
    """{label ns: row} of one meter's resampled rows."""
    if not len(df):
        return {}
    lab, val = reference(df, period, "mean", "ffill", int(-(-maxp // period)))
    return dict(zip(lab.tolist(), val))


def floor_ns(t, period):
    o = t.normalize().value
    P = period * 10 ** 9
    return o + (t.value - o) // P * P


def expected(d, ids, cols, labels, piece, period):
    """ids: meter instances, or tuples of them for nested groups, which count as one member."""
    out = np.full((len(labels), len(cols)), np.nan)
    for j, c in enumerate(cols):
        tot = np.zeros(len(labels))
        cnt = np.zeros(len(labels))
        for i in ids:
            if isinstance(i, tuple):
                v = expected(d, i, [c], labels, piece, period)[:, 0]
            else:
                M = d.buildings[1]["meters"][i]
                if c not in M["df"].columns:
                    continue
                rows = M["df"][[c]][gen.in_frame(M["df"].index, piece)]
                cl = cells(rows, period, d.devices[M["device"]]["max_sample_period"])
                v = np.array([cl[int(lab)][0] if int(lab) in cl else np.nan for lab in labels], dtype=float)
            ok = ~np.isnan(v)
            tot[ok] += v[ok]
            cnt[ok] += 1
        with np.errstate(invalid="ignore", divide="ignore"):
            out[:, j] = np.where(cnt > 0, tot if c[0] in SUM else tot / cnt, np.nan)
    return out


def judge(mon, d, ids, chunks, cols, sections, period, chunksize):
    pos = 0
    for sec in sections:
        P = period * 10 ** 9
        grid = np.arange(floor_ns(sec.start, period), sec.end.value, P)
        seen = []
        while pos < len(chunks) and sum(map(len, seen)) < len(grid):
            c = chunks[pos]
            pos += 1
            lab = gen.ns(c.index)
            mon.check(len(lab) > 0, "load.nonempty", "empty chunk inside a section")
            seen.append(lab)
            if chunksize:
                mon.check(len(lab) <= chunksize, "load.chunksize", n=len(lab), chunksize=chunksize)
            a = pd.Timestamp(max(lab[0], sec.start.value)).tz_localize("UTC")
            b = pd.Timestamp(min(lab[-1] + P, sec.end.value)).tz_localize("UTC")
            piece = TimeFrame(a, b)
            mon.equal(sorted(map(tuple, c.columns)), sorted(cols), "load.columns")
            want = expected(d, ids, cols, lab, piece, period)
            got = np.stack([c[x].values.astype(float) for x in cols], axis=1)
            bad = ~np.isclose(got, want, rtol=1e-5, atol=1e-3, equal_nan=True)
            if bad.any():
                i, j = [int(x[0]) for x in np.where(bad)]
                mon.check(False, "load.sum", "group value differs from the combination of its meters",
                          at=c.index[i], column=cols[j], got=got[i, j], want=want[i, j], period=period,
                          section=sec, chunksize=chunksize)
            mon.check(True, "load.sum")
            # the frame of the chunk covers what was read for it
            tf = getattr(c, "timeframe", None)
            flat = [i for x in ids for i in (x if isinstance(x, tuple) else [x])]
            raw = [M["df"].index[gen.in_frame(M["df"].index, piece)] for M in (d.buildings[1]["meters"][i] for i in flat)
                   if set(map(tuple, M["df"].columns)) & set(cols)]
            raw = [x for x in raw if len(x)]
            if raw:
                mon.check(tf is not None and bool(tf) and tf.start <= min(x[0] for x in raw)
                          and tf.end >= max(x[-1] for x in raw), "load.timeframe",
                          "the time frame of the chunk does not cover the samples of its meters", got=tf)
                mon.check(tf.start >= sec.start and tf.end <= sec.end, "load.timeframe_in_section", got=tf, want=sec)
            mon.event("cells compared", want.size)
        mon.check(len(seen) and np.array_equal(np.concatenate(seen), grid), "load.grid",
                  "grid instants of the section lost, repeated or shifted", section=sec, period=period,
                  chunksize=chunksize, got=pd.to_datetime(np.concatenate(seen)) if seen else None,
                  want=pd.to_datetime(grid))
    mon.equal(pos, len(chunks), "load.extra_chunks")


def group_of(rng, ds, d):
    e = ds.buildings[1].elec
    ids = sorted(d.buildings[1]["meters"])
    if len(ids) > 2 and rng.chance(0.3):
        k = rng.randrange(1, len(ids))
        return MeterGroup([e[i] for i in ids[:k]] + [MeterGroup([e[i] for i in ids[k:]])]), ids, ids[:k] + [tuple(ids[k:])]
    if rng.chance(0.3):
        ids = rng.sample(ids, rng.randrange(1, len(ids) + 1))
    return MeterGroup([e[i] for i in ids]), ids, None


def run(mon, rng, pool, kwf, same):
    tz = rng.choice(["Europe/London", "UTC", "US/Eastern"])
    d = members(rng, tz, pool, same)
    ds = d.open(rng.choice(["hdf", "hdf", "csv"]))
    try:
        g, ids, nested = group_of(rng, ds, d)
        dfs = [d.df(1, i) for i in ids]
        kw, cols = kwf(d, ids)
        period = max(d.devices[d.buildings[1]["meters"][i]["device"]]["sample_period"] for i in ids)
        if rng.chance(0.6):
            period = rng.choice([1, 6, 30, 60, 300])
            kw["sample_period"] = period
        lo, hi = min(x.index[0] for x in dfs), max(x.index[-1] for x in dfs)
        tf = g.get_timeframe()
        mon.check(tf.start == lo and tf.end == hi, "get_timeframe", "group extent is not the union of its meters'",
                  got=tf, want=(lo, hi))
        if rng.chance(0.5):
            big = max(dfs, key=len)
            sections = [s for s in gen.disjoint_sections(rng, big.index, rng.randrange(1, 4), inclusive=0)]
            if not sections:
                return
            kw["sections"] = sections
        else:
            sections = [TimeFrame(lo, hi)]
        cs = None
        if rng.chance(0.5) and (hi - lo).total_seconds() / period < 3000:
            cs = rng.choice([20, 100, 1000])
            kw["chunksize"] = cs
        if rng.chance(0.2):
            # sections that cover nothing deliver nothing
            none = TimeFrame(lo, hi).intersection(TimeFrame(hi + pd.Timedelta("1h"), hi + pd.Timedelta("2h")))
            at = rng.randrange(len(sections) + 1)
            kw["sections"] = sections[:at] + [none] + sections[at:]
            if rng.chance(0.3):
                out = list(g.load(**dict(kw, sections=[none])))
                mon.check(sum(len(c) for c in out) == 0, "load.empty_section", "rows from a section that covers nothing")
                mon.equal(sorted(map(tuple, out[0].columns)) if out else sorted(cols), sorted(cols), "load.empty_columns")
        mon.note(kw, ids, nested, lo, hi, d.devices)
        chunks = list(g.load(**kw))
        judge(mon, d, nested or ids, chunks, cols, sections, period, cs)
        mon.state(len(ids), period, len(sections), cs, tuple(cols), bool(nested), tz)
        mon.sample(dict(meters=len(ids), period=period, sections=len(sections), chunksize=cs))
    finally:
        ds.store.close()


def w_group(mon, rng):
    pool = [("power", "active")] if rng.chance(0.5) else [("power", "active"), ("power", "reactive"), ("energy", "active")]

    def kwf(d, ids):
        allc = sorted({c for i in ids for c in map(tuple, d.df(1, i).columns)})
        return {}, allc
    run(mon, rng, pool, kwf, same=rng.chance(0.3))


def w_columns(mon, rng):
    """Quantities that have to be averaged, and explicit selection."""
    pool = [("power", "active"), ("voltage", ""), rng.choice([("frequency", ""), ("power factor", ""), ("pf", ""),
                                                              ("phase angle", ""), ("current", "")])]

    def kwf(d, ids):
        if rng.chance(0.5):
            return {}, pool
        q = rng.choice(pool)
        return dict(physical_quantity=q[0]), [q]
    run(mon, rng, pool, kwf, same=True)


def w_frame(mon, rng):
    """dataframe_of_meters: one column per meter, nothing lost."""
    tz = rng.choice(["Europe/London", "UTC"])
    d = members(rng, tz, [("power", "active")], True)
    ds = d.open()
    try:
        e = ds.buildings[1].elec
        ids = sorted(d.buildings[1]["meters"])
        g = MeterGroup([e[i] for i in ids])
        kw = {}
        period = max(d.devices["d%d" % i]["sample_period"] for i in ids)
        if rng.chance(0.5):
            period = rng.choice([6, 30, 60])
            kw["sample_period"] = period
        sections = None
        if rng.chance(0.6):
            big = max((d.df(1, i) for i in ids), key=len)
            sections = gen.disjoint_sections(rng, big.index, rng.randrange(1, 4), inclusive=0) or None
            if sections and rng.chance(0.3):
                a = pd.Timestamp("2001-01-01", tz=tz)
                sections = [TimeFrame(a, a + pd.Timedelta("1h"))] + sections
            if sections:
                kw["sections"] = sections
        mon.note(kw, ids)
        got = g.dataframe_of_meters(**kw)
        want = {}
        for i in ids:
            df = d.df(1, i)
            for sec in (sections or [TimeFrame()]):
                rows = df[gen.in_frame(df.index, sec)]
                for lab, v in cells(rows, period, d.devices["d%d" % i]["max_sample_period"]).items():
                    want.setdefault(i, []).append((lab, v[0]))
        have = {c[0] for c in got.columns} if len(got) else set()
        mon.check(have >= set(want), "frame.columns", "a meter's column is missing", got=got.columns, want=sorted(want))
        for c in (got.columns if len(got) else []):
            i = c[0]
            col = got[c]
            w = [(t, v) for t, v in want.get(i, []) if not np.isnan(v)]
            s = col.dropna()
            mon.check(np.array_equal(gen.ns(s.index), np.array([t for t, _ in w], dtype=np.int64)), "frame.rows",
                      "instants with data are not those of the meter (lost, repeated, or gap shown as a reading)",
                      meter=i, got=s.index, want=pd.to_datetime([t for t, _ in w]))
            mon.close(s.values, [v for _, v in w], "frame.values")
            mon.event("cells compared", len(w))
        mon.state("frame", len(ids), period, len(sections or []))
    finally:
        ds.store.close()
