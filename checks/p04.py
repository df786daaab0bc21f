"""P04: chunk annotations (timeframe, look-ahead) and get_timeframe are truthful."""
import warnings

import numpy as np
import pytz
import pandas as pd

from checks import gen
from checks.p03 import KEY, rand_request, window_for
from nilmtk.timeframe import TimeFrame

WORKLOADS = [("chunks", 450, 5000), ("extent", 150, 1500)]
RULE = ("random tables in HDF/temporary/CSV stores read in chunks with 0..n+5 look-ahead rows through random "
        "windows, sections and columns; distinct = (store, look-ahead class, chunk position, openness, truncation)")
ASSUMPTIONS = ["tables have a strictly increasing index and at least one row (two where the extent of a table is asked for)"]
TECHNIQUE = "online monitor of every delivered chunk against the stored table"
NOTE = "Held on the executions observed."


def val(t):
    return None if t is None else t.value


def w_chunks(mon, rng):
    n = rng.choice([1, 2, 3, 6, 17, 60])
    kind = rng.choice(["hdf", "hdf", "tmp", "csv"])
    df = gen.rand_frame_df(rng, n, tz=rng.choice([None, "UTC", "Europe/London"]))
    if kind == "csv" and rng.chance(0.4):
        df.index.name = "time"
    store = gen.make_store(kind)
    try:
        store.put(KEY, df)
        idx = gen.ns(df.index)
        for _ in range(3):
            w, wk = window_for(rng, df.index)
            store.window = w
            cols, sections, chunksize = rand_request(rng, df, csv=kind == "csv")
            look = rng.choice([0, 1, 1, 2, 5, 10, n, n + 5])
            kw = dict(n_look_ahead_rows=look)
            for name, v in (("columns", cols), ("sections", sections), ("chunksize", chunksize)):
                if v is not None:
                    kw[name] = v
            mon.note(kind, n, w, w.enabled, kw)
            want_cols = list(map(tuple, df.columns)) if cols is None else [(a, b or "") for a, b in cols]
            secs = [TimeFrame()] if sections is None else list(sections)
            inters = [w.intersection(s) for s in secs]
            chunks = list(store.load(KEY, **kw))
            prev = None
            last_inter = None
            for c in chunks:
                mon.check(isinstance(getattr(c, "timeframe", None), TimeFrame), "timeframe.present", "",
                          got=getattr(c, "timeframe", None))
                if not len(c.index):
                    mon.event("empty chunk")
                    # a section without rows: its chunk is still confined to the window
                    e = getattr(c, "timeframe", None)
                    mon.check(e is not None and any(
                        (i.empty and (e.empty or e == s)) or
                        (not i.empty and not gen.in_frame(df.index, i).any() and (e.empty or (
                            (i.start is None or (e.start is not None and e.start.value >= i.start.value)) and
                            (i.end is None or (e.end is not None and e.end.value <= i.end.value)))))
                        for i, s in zip(inters, secs)), "timeframe.empty_chunk",
                        "an empty chunk's time frame is not inside the part of its section within the window",
                        timeframe=e, sections=inters)
                    continue
                tf = c.timeframe
                t = gen.ns(c.index)
                # which section is it from?  sections are sorted and disjoint
                inter = None
                for i in inters:
                    if not i.empty and (i.start is None or i.start.value <= t[0]) and \
                            (i.end is None or t[-1] <= i.end.value):
                        inter = i
                        if i.end is None or t[-1] < i.end.value:
                            break
                mon.check(inter is not None, "chunk.in_a_section", "rows belong to no requested section", rows=c.index)
                mon.check(not tf.empty and (tf.start is None or tf.start.value <= t[0]) and
                          (tf.end is None or tf.end.value >= t[-1]), "timeframe.covers_rows", "",
                          timeframe=tf, first=c.index[0], last=c.index[-1])
                if inter.start is not None:
                    mon.check(tf.start is not None and tf.start.value >= inter.start.value, "timeframe.within", "",
                              timeframe=tf, section=inter)
                if inter.end is not None:
                    mon.check(tf.end is not None and tf.end.value <= inter.end.value, "timeframe.within", "",
                              timeframe=tf, section=inter)
                if inter.start is None and len(t) > 1:
                    mon.equal(val(tf.start), t[0], "timeframe.open_start", "", timeframe=tf)
                if inter.end is None and len(t) > 1:
                    mon.equal(val(tf.end), t[-1], "timeframe.open_end", "", timeframe=tf)
                if kind != "csv":
                    in_sec = gen.in_frame(df.index, inter)
                    first = idx[in_sec][0] == t[0]
                    lastc = idx[in_sec][-1] == t[-1]
                    if first and inter.start is not None:
                        mon.equal(val(tf.start), inter.start.value, "timeframe.first_start", "", tf=tf, section=inter)
                    if lastc and inter.end is not None:
                        mon.equal(val(tf.end), inter.end.value, "timeframe.last_end", "", tf=tf, section=inter)
                    if prev is not None and last_inter is inter and not first:
                        mon.equal(val(prev.end), val(tf.start), "timeframe.tiles", "", prev=prev, tf=tf)
                else:
                    first = lastc = None
                if prev is not None and last_inter is not inter and prev.end is not None and tf.start is not None:
                    mon.check(prev.end.value <= tf.start.value, "timeframe.ordered", "", prev=prev, tf=tf)
                prev, last_inter = tf, inter
                # look-ahead: the rows stored right after the last row of this chunk
                if look > 0:
                    la = getattr(c, "look_ahead", None)
                    mon.check(isinstance(la, pd.DataFrame), "look_ahead.present")
                    k = int(np.searchsorted(idx, t[-1])) + 1
                    want = df.iloc[k:k + look]
                    mon.equal(len(la), len(want), "look_ahead.count", "", look=look, last=c.index[-1])
                    if len(want):
                        mon.check(np.array_equal(gen.ns(la.index), gen.ns(want.index)), "look_ahead.rows", "",
                                  got=la.index, want=want.index)
                        mon.equal([tuple(x) for x in la.columns], want_cols, "look_ahead.columns")
                        mon.check(np.array_equal(la.values.astype(float), want[want_cols].values, equal_nan=True),
                                  "look_ahead.values", "", got=la, want=want)
                    mon.state(kind, look > 1, len(want) < look, len(want) == 0, first, lastc, cols is None)
                mon.state(kind, wk, inter.start is None, inter.end is None, first, lastc, len(t) == 1)
        mon.sample(dict(store=kind, rows=n, request=str(kw)))
    finally:
        store.close()


def w_extent(mon, rng):
    n = rng.choice([2, 3, 20, 100])
    kind = rng.choice(["hdf", "tmp", "csv"])
    df = gen.rand_frame_df(rng, n, tz=rng.choice([None, "UTC", "Europe/London"]))
    store = gen.make_store(kind)
    try:
        store.put(KEY, df)
        for _ in range(4):
            w, wk = window_for(rng, df.index)
            store.window = w
            tf = store.get_timeframe(KEY)
            a, b = df.index[0].value, df.index[-1].value
            ws, we = (val(w.start), val(w.end))
            lo, hi = max(a, ws if ws is not None else a), min(b, we if we is not None else b)
            mon.note(kind, w, tf)
            mon.state(kind, wk, lo >= hi, lo == a, hi == b)
            mon.equal(bool(tf.empty), lo >= hi, "extent.empty", "", window=w, tf=tf)
            if lo < hi:
                mon.equal((val(tf.start), val(tf.end)), (lo, hi), "extent", "", window=w, tf=tf)
            if kind != "csv":
                tf2 = gen.rand_tf(rng, df.index)
                mask = gen.in_frame(df.index, w) & gen.in_frame(df.index, tf2)
                inter = w.intersection(tf2)
                if inter.empty:
                    mask[:] = False
                elif w.end is not None and tf2.end is not None and w.end == tf2.end:
                    mask = gen.in_frame(df.index, inter)
                mon.equal(int(store._nrows(KEY, tf2)), int(mask.sum()), "nrows", "", window=w, tf=tf2) \
                    if hasattr(store, "_nrows") else None
        # a window in a fixed-offset zone is accepted with a warning, one in a geographical zone without
        for zone, loud in ((pytz.FixedOffset(rng.choice([60, -300, 330])), True), (rng.choice(["UTC", "Europe/London"]), False)):
            w = TimeFrame(df.index[0].tz_localize(None).tz_localize("UTC").tz_convert(zone)) if rng.chance(0.5) else \
                TimeFrame(end=pd.Timestamp("2020-01-01", tz=zone))
            with warnings.catch_warnings(record=True) as log:
                warnings.simplefilter("always")
                store.window = w
            mon.equal(any("FixedOffset" in str(x.message) for x in log), loud, "window.fixed_offset", zone=str(zone))
            mon.check(store.window == w, "window.kept")
    finally:
        store.close()
