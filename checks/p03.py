"""P03: loading returns exactly the stored rows inside window and section."""
import numpy as np
import pandas as pd

from checks import gen
from nilmtk.timeframe import TimeFrame
from nilmtk.timeframegroup import TimeFrameGroup

WORKLOADS = [("hdf", 450, 6000), ("csv", 200, 2500), ("many", 60, 600), ("series", 20, 300), ("missing", 40, 300)]
RULE = ("random tables (irregular sampling, gaps, tz, 1-4 columns) in HDF, temporary and CSV stores, loaded "
        "through random windows (enabled/disabled/open/inclusive), section lists, columns and chunk sizes "
        "whose edges fall on, next to and between samples; distinct = (store, #rows class, #sections, "
        "chunks per section, window kind, columns) with at least one row requested")
ASSUMPTIONS = ["stored tables have a strictly increasing index and at least one row",
               "consecutive sub-chunks of one section may share their single boundary row (HDF design)"]
TECHNIQUE = "conservation monitor: rows delivered vs rows stored (exactly-once up to the shared boundary row)"
NOTE = "Held on the executions observed: every delivered row, value and column is compared with the model table."
KEY = "/building1/elec/meter1"


def window_for(rng, index):
    k = rng.randrange(4)
    if k == 0:
        return TimeFrame(), "none"
    w = gen.rand_tf(rng, index)
    if k == 1:
        w.enabled = False
        return w, "disabled"
    return w, "set"


def reconstruct(mon, chunks, what, repeats=False):
    """Concatenate the chunks of one section, dropping the one shared row."""
    out, vals = [], []
    for c in chunks:
        if c.empty and not len(c.index):
            continue
        t, v = gen.ns(c.index), c.values.astype(float)
        mon.check(bool(np.all(np.diff(t) >= 0 if repeats else np.diff(t) > 0)), what + ".sorted", "rows of a chunk out of order or repeated")
        if out and out[-1][-1] == t[0]:
            mon.check(np.array_equal(vals[-1][-1], v[0], equal_nan=True), what + ".shared_row",
                      "boundary row differs between sub-chunks")
            mon.event("shared boundary row")
            t, v = t[1:], v[1:]
        if out and len(t):
            mon.check(t[0] > out[-1][-1], what + ".chunk_order", "chunks overlap or out of order")
        if len(t):
            out.append(t)
            vals.append(v)
    if not out:
        return np.array([], dtype=np.int64), None
    return np.concatenate(out), np.concatenate(vals)


def judge_load(mon, store, df, columns, sections, chunksize, what, state, key=KEY):
    kw = {}
    if columns is not None:
        kw["columns"] = columns
    if sections is not None:
        kw["sections"] = sections
    if chunksize is not None:
        kw["chunksize"] = chunksize
    chunks = list(store.load(key, **kw))
    secs = [TimeFrame()] if sections is None else list(sections)
    mon.event("chunks delivered", len(chunks))
    want_cols = list(map(tuple, df.columns)) if columns is None else [
        (a, b or "") for a, b in columns]
    w = store.window
    pos = 0
    per = []
    for sec in secs:
        mask = gen.in_frame(df.index, w) & gen.in_frame(df.index, sec)
        # an empty intersection of the two frames is an empty request
        if w.intersection(sec).empty:
            mask[:] = False
        want = df[mask]
        mine = []
        if not len(want):
            mon.check(pos < len(chunks) and len(chunks[pos].index) == 0, what + ".empty_section",
                      "no empty frame delivered for a section without data", section=sec, window=w)
            pos += 1
            per.append(0)
            continue
        last = gen.ns(want.index)[-1]
        while pos < len(chunks):
            c = chunks[pos]
            mine.append(c)
            pos += 1
            if len(c.index) and gen.ns(c.index)[-1] >= last:
                break
        t, v = reconstruct(mon, mine, what, not df.index.is_unique)
        mon.check(np.array_equal(t, gen.ns(want.index)), what + ".rows",
                  "delivered rows are not the rows of the section", section=sec, window=w, chunksize=chunksize,
                  got=pd.to_datetime(t), want=want.index)
        for c in mine:
            mon.equal([tuple(x) for x in c.columns], want_cols, what + ".columns")
        mon.check(np.array_equal(v, want[want_cols].values.astype(float), equal_nan=True), what + ".values",
                  "a delivered value differs from the stored one", section=sec, window=w)
        if chunksize is not None:
            for c in mine:
                mon.check(len(c) <= chunksize + 1, what + ".chunksize", "chunk much larger than chunksize",
                          n=len(c), chunksize=chunksize)
        mon.event("rows compared", len(t))
        per.append(min(len(mine), 4))
    mon.equal(pos, len(chunks), what + ".extra_chunks")
    mon.state(what, state, tuple(per[:4]), columns is not None, len(secs))


def rand_request(rng, df, csv=False):
    idx = df.index
    cols = None
    if rng.chance(0.4):
        allc = list(map(tuple, df.columns))
        cols = rng.sample(allc, rng.randrange(1, len(allc) + 1))
        cols = [c for c in allc if c in cols] if not csv else cols
        if rng.chance(0.3) and not csv:
            cols = [(a, None if b == "" else b) for a, b in cols]
    k = rng.randrange(4)
    if k == 0:
        sections = None
    elif k == 1:
        sections = [gen.rand_tf(rng, idx)]
    else:
        sections = gen.disjoint_sections(rng, idx, rng.randrange(1, 6))
        if not sections:
            sections = None
        elif rng.chance(0.5):
            sections = TimeFrameGroup(sections)
    n = len(idx)
    chunksize = rng.choice([None, None, n, n - 1, n + 1, max(1, n // 2), max(1, n // 3), 7, 2, 1, n * 10])
    if chunksize is not None:
        chunksize = max(1, chunksize)
        if rng.chance(0.1) and not csv:
            chunksize = float(chunksize)
    return cols, sections, chunksize


def w_hdf(mon, rng):
    n = rng.choice([1, 2, 3, 5, 17, 60, 200])
    df = gen.rand_frame_df(rng, n, nan=rng.choice([0, 0.1]), tz=rng.choice([None, "UTC", "Europe/London"]),
                           jitter=rng.choice([0, 0.3]))
    cols = list(map(tuple, df.columns))
    dup = n > 2 and rng.chance(0.1)
    if dup:                                     # two readings of the same instant are two rows
        at = sorted(rng.sample(range(n - 1), rng.randrange(1, min(4, n))))
        t = df.index.values.copy()
        t[[k + 1 for k in at]] = t[at]
        df.index = pd.DatetimeIndex(t) if df.index.tz is None else pd.DatetimeIndex(t, tz="UTC").tz_convert(df.index.tz)
        if rng.chance(0.5):
            df.iloc[at[0] + 1] = df.iloc[at[0]]
        mon.event("tables with repeated instants")
    kind = rng.choice(["hdf", "tmp"])
    store = gen.make_store(kind)
    try:
        if n == 1 or rng.chance(0.7):
            store.put(KEY, df)
        else:
            k = rng.randrange(1, n) if n > 1 else 1
            store.append(KEY, df.iloc[:k])
            if k < n:
                store.append(KEY, df.iloc[k:])
        for _ in range(4):
            w, wk = window_for(rng, df.index)
            store.window = w
            c, s, z = rand_request(rng, df)
            if dup:
                z = None
            key = rng.choice([KEY, KEY, KEY, KEY[1:], KEY + "/", KEY[1:] + "/"])
            mon.note("window", w, w.enabled, "cols", c, "sections", s, "chunksize", z, "key", key)
            judge_load(mon, store, df, c, s, z, "hdf", (wk, min(n, 20)), key)
        mon.sample(dict(rows=n, columns=cols, window=repr(store.window)))
    finally:
        store.close()


def w_csv(mon, rng):
    n = rng.choice([1, 2, 3, 5, 17, 60, 200])
    df = gen.rand_frame_df(rng, n, tz=rng.choice([None, None, "UTC", "Europe/London", "US/Eastern"]),
                           jitter=rng.choice([0, 0, 0.2]))
    if rng.chance(0.3):
        df.index.name = "time"
    store = gen.make_store("csv")
    if n == 1 or rng.chance(0.7):
        store.put(KEY, df)
    else:
        k = rng.randrange(1, n)
        store.append(KEY, df.iloc[:k])
        store.append(KEY, df.iloc[k:])
    for _ in range(3):
        w, wk = window_for(rng, df.index)
        store.window = w
        c, s, z = rand_request(rng, df, csv=True)
        mon.note("window", w, w.enabled, "cols", c, "sections", s, "chunksize", z)
        judge_load(mon, store, df, c, s, z, "csv", (wk, min(n, 20)))


def w_many(mon, rng):
    """Day-by-day style sections (PeriodIndex) partition the data."""
    n = 400
    df = gen.rand_frame_df(rng, n, period=rng.choice([600, 3600]), gaps=0.02)
    store = gen.make_store(rng.choice(["hdf", "csv"]))
    try:
        store.put(KEY, df)
        freq = rng.choice(["D", "W"])
        periods = pd.period_range(df.index[0], df.index[-1], freq=freq)
        total, seen = 0, []
        for c in store.load(KEY, sections=periods):
            if len(c.index):
                seen.append(c)
                total += len(c)
        mon.state(freq, len(periods), len(seen))
        mon.equal(total, n, "periods.conserve", "rows lost or repeated across period sections")
        got = pd.concat(seen)
        mon.check(gen.frames_equal(got, df), "periods.rows")
    finally:
        store.close()


def w_series(mon, rng):
    """All power samples of a meter as one series: every stored sample once, whatever the chunks."""
    d = gen.Data("p03s-%d" % rng.randrange(10 ** 9), rng.choice(["UTC", "Europe/London"]))
    W = [("power", "active")]
    d.devices["s"] = gen.device("s", W, 6, 30)
    n = rng.choice([2, 7, 40, 120])
    for i in (1, 2):
        d.meter(1, i, gen.rand_frame_df(rng, n, W, period=6, tz=d.tz, gaps=rng.choice([0, 0.1])), "s", of=1, site=i == 1)
    d.appliance(1, "fridge", 1, [2])
    ds = d.open("hdf")
    try:
        m = ds.buildings[1].elec[rng.choice([1, 2])]
        df = d.df(1, m.instance())
        kw = {"chunksize": rng.choice([1, 2, 3, 7, n, n + 1])} if rng.chance(0.8) else {}
        want = df
        if rng.chance(0.5):
            secs = gen.disjoint_sections(rng, df.index, rng.randrange(1, 4), inclusive=0)
            if secs:
                kw["sections"] = secs
                want = df[np.any([gen.in_frame(df.index, s) for s in secs], axis=0)]
        got = m.power_series_all_data(**kw)
        if got is None:
            mon.equal(len(want), 0, "series.rows", "samples lost")
            return
        mon.check(np.array_equal(gen.ns(got.index), gen.ns(want.index)), "series.rows", "samples lost or repeated", options=kw,
                  count=(len(got), len(want)))
        mon.check(np.array_equal(got.values.astype(float), want.values[:, 0].astype(float), equal_nan=True), "series.values")
        mon.event("samples of a series compared", len(want))
        mon.state("series", kw.get("chunksize"), len(kw.get("sections", [])), n)
    finally:
        ds.store.close()


def w_missing(mon, rng):
    kind = rng.choice(["hdf", "tmp", "csv"])
    store = gen.make_store(kind)
    try:
        df = gen.rand_frame_df(rng, 20)
        store.put(KEY, df)
        other = "/building%d/elec/meter%d" % (rng.randrange(1, 4), rng.randrange(2, 9))
        secs = rng.choice([None, [gen.rand_tf(rng, df.index, p_open=0)]])
        mon.state(kind, secs is None)
        mon.raises(KeyError, lambda: list(store.load(other, sections=secs)), "missing.key", other)
        mon.raises(KeyError, lambda: store[other], "missing.getitem", other)
        got = store[KEY]
        mon.check(gen.frames_equal(got, df), "getitem.all")
    finally:
        store.close()
