"""P10: total energy."""
import numpy as np
import pandas as pd

from checks import gen
from nilmtk.metergroup import MeterGroup
from nilmtk.stats.totalenergy import get_total_energy
from nilmtk.timeframe import TimeFrame

WORKLOADS = [("meter", 130, 1500), ("function", 100, 1500), ("group", 50, 600), ("chunks", 60, 700)]
RULE = ("random power, energy and cumulative-energy tables (gaps below/above the maximum sample period, values outside "
        "the device limits, NaN) are measured with random windows, sections and chunk sizes; the reported kWh is "
        "compared with an independent left-Riemann/sum/difference reference per AC type; distinct = (columns, "
        "#sections, chunked, window, request)")
ASSUMPTIONS = ["cumulative registers never roll over", "with explicit chunk sizes the table has no missing values "
               "(a missing value at a chunk boundary hides one interval)", "relative tolerance 1e-9"]
TECHNIQUE = "conservation monitor: reported energy vs independent integral of the stored samples"
NOTE = "Held on the executions observed; energy per AC type and per section is compared with the reference."

PREF = ["cumulative energy", "energy", "power"]
ACS = ["active", "apparent", "reactive"]


def energy_ref(df, maxp, limits=None):
    """kWh per AC type of one contiguous table."""
    out = {}
    for ac in ACS:
        have = [c for c in map(tuple, df.columns) if c[1] == ac]
        pq = next((p for p in PREF if (p, ac) in have), None)
        if pq is None:
            continue
        s = df[(pq, ac)]
        v, t = s.values.astype(float), gen.ns(df.index)
        if limits:
            v = np.clip(v, *limits)
        ok = ~np.isnan(v)
        v, t = v[ok], t[ok]
        if pq == "power":
            dt = np.minimum(np.diff(t) / 1e9, maxp)
            out[ac] = float(np.sum(v[:-1] * dt) / 3.6e6) if len(v) else 0.0
        elif pq == "energy":
            out[ac] = float(v.sum())
        else:
            out[ac] = float(v[-1] - v[0]) if len(v) else 0.0
    return out


def make_df(rng, cols, n, nan, tz="Europe/London", **kw):
    df = gen.rand_frame_df(rng, n, cols, nan=nan, tz=tz, jitter=rng.choice([0, 0.3]), **kw)
    for c in cols:
        if c[0] == "cumulative energy":
            # import registers only rise; net registers also fall
            df[c] = np.cumsum(rng.np.integers(rng.choice([0, 0, -40]), 50, n)) / 8.0
            if nan:
                df.loc[rng.np.random(n) < nan, [c]] = np.nan
    return df


POOL = [(p, a) for p in PREF for a in ACS] + [("voltage", "")]


def w_function(mon, rng):
    cols = rng.sample(POOL, rng.randrange(1, 5))
    n = rng.choice([1, 2, 3, 20, 100])
    df = make_df(rng, cols, n, rng.choice([0, 0.2]), tz=rng.choice([None, "UTC", "Europe/London"]),
                 gaps=rng.choice([0, 0.3]))
    snap = df.copy(deep=True)
    maxp = rng.choice([1, 10, 60, 1000])
    mon.note(cols, n, maxp)
    got = get_total_energy(df, maxp)
    mon.check(gen.frames_equal(df, snap), "function.input_unchanged")
    want = energy_ref(df, maxp)
    mon.equal(set(got), set(want), "function.ac_types", columns=cols)
    for a in want:
        mon.close(got[a], want[a], "function.energy", ac=a, columns=cols, rtol=1e-9, atol=1e-12)
    mon.state("function", tuple(sorted(cols)), min(n, 3))


def section_rows(df, window, sec):
    m = gen.in_frame(df.index, window) & gen.in_frame(df.index, sec)
    inter = window.intersection(sec)
    if inter.empty:
        m[:] = False
    return df[m]


def meter_data(rng, cols, nan, n=None, limits=(0, 2500)):
    d = gen.Data()
    sp = rng.choice([1, 6, 60])
    d.devices["d"] = gen.device("d", cols, sp, sp * rng.choice([1, 5, 20]), *limits)
    n = n or rng.choice([2, 5, 50, 200])
    df = make_df(rng, cols, n, nan, period=sp, gaps=rng.choice([0, 0.1, 0.3]))
    d.meter(1, 1, df, "d", site=True)
    d.appliance(1, "fridge", 1, [1])
    return d, df, d.devices["d"]["max_sample_period"]


def total(dfs, maxp, limits):
    out = {}
    for x in dfs:
        for a, e in energy_ref(x, maxp, limits).items():
            out[a] = out.get(a, 0.0) + e
    return out


def judge(mon, got, want, what, **kw):
    mon.equal(set(got.index), set(want), what + ".ac_types", **kw)
    for a in want:
        mon.close(got[a], want[a], what + ".energy", rtol=1e-9, atol=1e-12, ac=a, **kw)


def w_meter(mon, rng):
    cols = rng.sample(POOL[:-1], rng.randrange(1, 4))
    # limits of cumulative registers would cut them, so keep those unlimited
    limits = (None, None) if any(c[0] == "cumulative energy" for c in cols) or rng.chance(0.3) else (
        rng.choice([0, 500]), rng.choice([2500, 1000]))
    d, df, maxp = meter_data(rng, cols, rng.choice([0, 0, 0.1]), limits=limits)
    lim = None if limits[0] is None else limits
    ds = d.open()
    try:
        m = ds.buildings[1].elec[1]
        ds.store.window = rng.choice([TimeFrame(), gen.rand_tf(rng, df.index, inclusive=0)])
        w = ds.store.window
        kw = {}
        secs = None
        if rng.chance(0.6):
            secs = gen.disjoint_sections(rng, df.index, rng.randrange(1, 5)) or None
            if secs:
                kw["sections"] = secs
        rows = [section_rows(df, w, s) for s in secs] if secs else [section_rows(df, w, TimeFrame())]
        rows = [r for r in rows if len(r)]
        ask = rng.randrange(3)
        use = cols
        if ask == 1:
            kw["ac_type"] = rng.choice(sorted({c[1] for c in cols}))
            use = [c for c in cols if c[1] == kw["ac_type"]]
        elif ask == 2:
            kw["physical_quantity"] = rng.choice(sorted({c[0] for c in cols}))
            use = [c for c in cols if c[0] == kw["physical_quantity"]]
        mon.note(kw, w, cols, limits, [(r.index[0], r.index[-1], len(r)) for r in rows], df.index[0], df.index[-1], len(df))
        want = total([r[use] for r in rows], maxp, lim)
        if secs and rng.chance(0.3):
            res = m.total_energy(full_results=True, **kw)
            per = res.per_period()
            mon.event("per-period rows", len(per))
            got = {}
            for k in range(len(per)):
                tf = TimeFrame(per.index[k], per.iloc[k]["end"])
                hit = [r for r in rows if tf.start <= r.index[0] and r.index[-1] <= tf.end]
                hit = [r for r in hit if any(TimeFrame(s.start, s.end).intersection(w) == tf for s in secs)]
                e = total([r[use] for r in hit], maxp, lim)
                for a, x in e.items():
                    mon.close(float(per.iloc[k][a]), x, "meter.per_period", section=tf)
            got = res.combined()
        else:
            got = m.total_energy(**kw)
        if not rows or (secs is None and m.get_timeframe().empty):
            # (a window holding just the table's last instant has an empty extent)
            mon.check(len(got) == 0 or not np.any(np.nan_to_num(np.asarray(got, dtype=float))), "meter.no_data", got=got)
        else:
            judge(mon, got, want, "meter", request=kw, window=w)
        mon.state(tuple(sorted(cols)), len(secs or []), ask, w.start is None, w.end is None, limits)
        mon.sample(dict(columns=cols, energy={k: float(v) for k, v in want.items()}))
    finally:
        ds.store.close()


def w_chunks(mon, rng):
    """The answer does not depend on how the data is chunked."""
    cols = rng.sample(POOL[:-1], rng.randrange(1, 3))
    d, df, maxp = meter_data(rng, cols, 0, n=rng.choice([20, 80, 200]), limits=(None, None))
    ds = d.open()
    try:
        m = ds.buildings[1].elec[1]
        kw = {}
        secs = gen.disjoint_sections(rng, df.index, 3, inclusive=0) if rng.chance(0.5) else None
        if secs:
            kw["sections"] = secs
        cs = rng.choice([2, 3, 7, len(df) - 1, len(df), len(df) // 2])
        rows = [section_rows(df, TimeFrame(), s) for s in secs] if secs else [df]
        rows = [r for r in rows if len(r)]
        if not rows:
            return
        want = total(rows, maxp, None)
        mon.note(cols, cs, secs)
        got = m.total_energy(chunksize=cs, **kw)
        judge(mon, got, want, "chunks", chunksize=cs, sections=secs)
        mon.state("chunks", tuple(sorted(cols)), min(len(df) // cs, 5), len(secs or []))
    finally:
        ds.store.close()


def w_group(mon, rng):
    d = gen.Data()
    nm = rng.randrange(1, 5)
    want, maxps = {}, {}
    same = rng.chance(0.5)
    base = rng.sample(ACS, 1)
    for i in range(1, nm + 1):
        acs = base if same else rng.sample(ACS, rng.randrange(1, 3))
        cols = [(rng.choice(PREF), a) for a in acs]
        sp = rng.choice([1, 6])
        d.devices["d%d" % i] = gen.device("d%d" % i, cols, sp, sp * 5, None, None)
        df = make_df(rng, cols, rng.choice([5, 40]), 0, period=sp, start="2013-10-26 22:00")
        d.meter(1, i, df, "d%d" % i, of=1, site=i == 1)
        d.appliance(1, "fridge", i, [i])
        for a, e in energy_ref(df, sp * 5).items():
            want[a] = want.get(a, 0) + e
    ds = d.open()
    try:
        e = ds.buildings[1].elec
        for _ in range(2):
            got = e.total_energy()
            judge(mon, got, want, "group", meters=nm)
        one = e.meters[0].total_energy()
        judge(mon, one, energy_ref(d.df(1, e.meters[0].instance()), d.devices["d%d" % e.meters[0].instance()]["max_sample_period"]),
              "group_member", meters=nm)
        mon.state("group", nm, same)
    finally:
        ds.store.close()
