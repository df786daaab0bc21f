"""P11: good sections."""
import numpy as np
import pandas as pd

from checks import gen
from checks.p10 import section_rows
from nilmtk.stats.goodsections import get_good_sections
from nilmtk.timeframe import TimeFrame
from nilmtk.timeframegroup import TimeFrameGroup

WORKLOADS = [("meter", 150, 2000), ("function", 150, 2500), ("chunks", 80, 900), ("uptime", 40, 500)]
RULE = ("tables with gaps just below, at and above the maximum sample period, NaN and isolated samples; good sections "
        "asked for the whole table, windows, section lists and chunk sizes, from HDF and CSV, and compared with a "
        "scan of the stored instants; distinct = (#runs, #sections, chunked, window, look-ahead cases)")
ASSUMPTIONS = ["a run still going at the requested section's end, with the next sample close enough, extends to that end",
               "with explicit chunk sizes the table has no missing values"]
TECHNIQUE = "online checker of reported sections against a scan of the stored sampling instants"
NOTE = "Held on the executions observed; every reported start and end is compared."


def scan(t, maxp, nxt=None, end=None):
    """Maximal runs of instants (ns) -> list of (start, end); nxt is the next stored instant after t."""
    out = []
    i = 0
    M = maxp * 10 ** 9
    while i < len(t):
        j = i
        while j + 1 < len(t) and t[j + 1] - t[j] <= M:
            j += 1
        if j == len(t) - 1 and nxt is not None and nxt - t[j] <= M:
            if end > t[i]:
                out.append((t[i], end))
        elif j > i:
            out.append((t[i], t[j]))
        i = j + 1
    return out


def gap_df(rng, n, maxp, nan=0.0, tz="Europe/London", cols=None):
    steps = rng.np.choice([1, 2, maxp - 1, maxp, maxp, maxp + 1, 5 * maxp], n,
                          p=[.45, .2, .1, .1, .05, .05, .05]).astype(np.int64) * 10 ** 9
    steps = np.maximum(steps, 10 ** 8)
    if rng.chance(0.3):
        steps[rng.np.random(n) < 0.2] += rng.choice([1000, -1000])     # one microsecond
    t = pd.Timestamp(rng.choice(["2013-10-26 23:58", "2014-03-30 00:58", "2013-06-07"])).value + np.cumsum(steps)
    idx = pd.to_datetime(t)
    if tz:
        idx = idx.tz_localize("UTC").tz_convert(tz)
    cols = cols or [("power", "active")]
    return pd.DataFrame(gen.rand_values(rng, n, len(cols), nan), index=idx, columns=gen.mi(cols))


def as_pairs(frames):
    return [(f.start.value if f.start is not None else None, f.end.value if f.end is not None else None)
            for f in frames]


def w_function(mon, rng):
    """Pieces with look-ahead, stitched by hand, give the runs of the whole."""
    maxp = rng.choice([3, 10, 60])
    n = rng.choice([0, 1, 2, 3, 10, 60])
    df = gap_df(rng, max(n, 1), maxp, nan=rng.choice([0, 0, 0.2]), tz=rng.choice([None, "UTC"]),
                cols=rng.choice([None, [("power", "active"), ("voltage", "")]])).iloc[:n]
    valid = df.dropna()
    t = gen.ns(valid.index) if n else np.array([], dtype=np.int64)
    if rng.chance(0.3) and n > 2:
        src = df.iloc[rng.np.permutation(n)]
    else:
        src = df
    got = get_good_sections(src, maxp)
    mon.equal(as_pairs(got), scan(t, maxp), "function.whole", max_sample_period=maxp)
    mon.state("function", min(n, 4), min(len(got), 5), maxp)
    if n >= 6:
        k = rng.randrange(3, n - 2)
        a, b = df.iloc[:k], df.iloc[k:]
        if len(a.dropna()) < 2 or len(b.dropna()) < 2:
            return
        la = b.iloc[:rng.choice([1, 2, 10])]
        ga = get_good_sections(a, maxp, look_ahead=la)
        opened = bool(ga) and ga[-1].end is None
        ta = gen.ns(a.dropna().index)
        lad = la.dropna()
        want_open = len(lad) > 0 and gen.ns(lad.index)[0] - ta[-1] <= maxp * 10 ** 9
        mon.equal(opened, bool(want_open), "function.open_end", "look-ahead decides whether the last section is open")
        if not want_open and len(la.dropna()):
            mon.equal(as_pairs(ga), scan(ta, maxp), "function.closed")
        if not len(lad):
            return
        gb = get_good_sections(b, maxp, None, opened)
        # stitch
        parts = as_pairs(ga) + as_pairs(gb)
        if opened:
            mon.check(bool(gb) and gb[0].start is None, "function.open_start", gb=gb)
            cut = len(ga)
            parts = parts[:cut - 1] + [(parts[cut - 1][0], parts[cut][1])] + parts[cut + 1:]
        mon.equal(parts, scan(t, maxp), "function.stitched", split=k)
        mon.event("stitched")


def next_after(df, t):
    v = gen.ns(df.dropna().index)
    i = np.searchsorted(v, t, "right")
    return int(v[i]) if i < len(v) else None


def expected(df, window, secs, maxp, tf):
    """Reference result for sorted sections."""
    res = []       # (chunk tf start, chunk end, runs, open)
    full = gen.ns(df.index)
    for s in secs:
        inter = s.intersection(window)
        if inter.empty:
            continue
        rows = section_rows(df, window, s)
        if not len(rows):
            continue
        t = gen.ns(rows.dropna().index)
        i = np.searchsorted(full, gen.ns(rows.index)[-1], "right")
        la = df.iloc[i:i + 10].dropna()
        nxt = int(gen.ns(la.index)[0]) if len(la) else None
        if len(t) < 2:
            continue
        res.append((inter, t, nxt))
    out = []
    M = maxp * 10 ** 9
    prev_open_end = None
    for inter, t, nxt in res:
        end = inter.end.value if inter.end is not None else None
        runs = scan(t, maxp, nxt, end)
        start = inter.start.value if inter.start is not None else None
        # continuation of an open run from an adjacent section
        if prev_open_end is not None and start is not None and prev_open_end - M <= start <= prev_open_end and out:
            if runs and runs[0][0] == t[0]:
                out[-1] = (out[-1][0], runs[0][1])
                runs = runs[1:]
            else:
                out[-1] = (out[-1][0], int(t[0]))
        out.extend(runs)
        opened = nxt is not None and nxt - t[-1] <= M
        prev_open_end = end if opened else None
    return out


def w_meter(mon, rng):
    maxp = rng.choice([3, 10, 60])
    n = rng.choice([2, 3, 10, 50, 120])
    kind = rng.choice(["hdf", "hdf", "csv"])
    cols = rng.choice([[("power", "active")], [("power", "active"), ("voltage", "")]])
    tz = "Europe/London" if kind == "hdf" else "UTC"
    df = gap_df(rng, n, maxp, nan=rng.choice([0, 0, 0.15, 0.35]) if kind == "hdf" else 0, cols=cols, tz=tz)
    d = gen.Data(tz=tz)
    d.devices["d"] = gen.device("d", cols, 1, maxp)
    d.meter(1, 1, df, "d", site=True)
    d.appliance(1, "fridge", 1, [1])
    ds = d.open(kind)
    try:
        m = ds.buildings[1].elec[1]
        w = rng.choice([TimeFrame(), gen.rand_tf(rng, df.index, p_open=0.3, inclusive=0)])
        k = rng.randrange(3)
        if kind == "csv":       # CSV chunks are framed by their samples, not by the request
            w, k = TimeFrame(), 0
        ds.store.window = w
        kw = {}
        secs = None
        if k == 1:
            secs = gen.disjoint_sections(rng, df.index, rng.randrange(1, 5), inclusive=rng.choice([0, 0.4])) or None
        elif k == 2:    # adjacent sections
            pts = sorted({gen.rand_instant(rng, df.index) for _ in range(4)})
            secs = [TimeFrame(a, b) for a, b in zip(pts, pts[1:])] or None
        if secs:
            kw["sections"] = secs
            use = secs
        else:
            tf = m.get_timeframe()
            if tf.empty:
                return
            tf.include_end = True
            use = [tf]
        mon.note(kind, kw, "window", w, "maxp", maxp)
        want = expected(df, w, use, maxp, None)
        res = m.good_sections(full_results=True, **kw)
        c1, c2 = res.combined(), res.combined()
        mon.equal(as_pairs(c1), as_pairs(c2), "meter.combined_twice")
        mon.equal(as_pairs(c1), want, "meter.sections", "not the maximal well-sampled stretches", window=w,
                  sections=use, maxp=maxp)
        got = m.good_sections(**kw)     # second time: from the cache
        mon.equal(as_pairs(got), want, "meter.sections_again", window=w, sections=use)
        mon.check(isinstance(got, TimeFrameGroup), "meter.type", type=type(got))
        if len(got):
            mon.check(got[-1].include_end and not any(g.include_end for g in got[:-1]), "meter.include_end")
        mon.state(kind, min(len(want), 6), len(secs or []), k, w.start is None, w.end is None)
        mon.event("good sections compared", len(want))
    finally:
        ds.store.close()


def w_chunks(mon, rng):
    """The answer does not depend on the chunk size."""
    maxp = rng.choice([3, 10])
    n = rng.choice([20, 60, 120])
    df = gap_df(rng, n, maxp)
    d = gen.Data()
    d.devices["d"] = gen.device("d", [("power", "active")], 1, maxp)
    d.meter(1, 1, df, "d", site=True)
    d.appliance(1, "fridge", 1, [1])
    ds = d.open()
    try:
        m = ds.buildings[1].elec[1]
        cs = rng.choice([3, 5, 7, 20, n // 2, n - 1])
        kw = {}
        tf = m.get_timeframe()
        tf.include_end = True
        use = [tf]
        if rng.chance(0.5):
            secs = gen.disjoint_sections(rng, df.index, 3, inclusive=0)
            if secs:
                kw["sections"] = use = secs
        want = expected(df, TimeFrame(), use, maxp, None)
        mon.note(cs, kw, maxp)
        got = m.good_sections(chunksize=cs, **kw)
        mon.equal(as_pairs(got), want, "chunks.sections", "good sections depend on the chunk size", chunksize=cs,
                  sections=use)
        mon.state("chunks", min(n // cs, 6), len(want), len(kw))
    finally:
        ds.store.close()


def w_uptime(mon, rng):
    maxp = rng.choice([3, 10])
    df = gap_df(rng, rng.choice([5, 40]), maxp)
    d = gen.Data()
    d.devices["d"] = gen.device("d", [("power", "active")], 1, maxp)
    d.meter(1, 1, df, "d", site=True)
    d.appliance(1, "fridge", 1, [1])
    ds = d.open()
    try:
        m = ds.buildings[1].elec[1]
        tf = m.get_timeframe()
        tf.include_end = True
        want = expected(df, TimeFrame(), [tf], maxp, None)
        up = m.uptime()
        mon.equal(pd.Timedelta(up).value if up is not None else 0, sum(b - a for a, b in want), "uptime",
                  "uptime is not the total length of the good sections")
        mon.state("uptime", len(want))
    finally:
        ds.store.close()
