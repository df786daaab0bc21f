"""P21: results objects combine chunks, meters and cached rows."""
import numpy as np
import pandas as pd

from checks import gen
from nilmtk.results import Results
from nilmtk.stats.dropoutrateresults import DropoutRateResults
from nilmtk.stats.goodsectionsresults import GoodSectionsResults
from nilmtk.stats.totalenergyresults import TotalEnergyResults
from nilmtk.timeframe import TimeFrame
from nilmtk.timeframegroup import TimeFrameGroup

WORKLOADS = [("history", 200, 3000), ("good", 120, 1800), ("unify", 120, 1500), ("cache", 100, 1200), ("group", 40, 500)]
RULE = ("random histories of append/update (any order, overlapping and touching frames, wrong types) are applied to every Results "
        "class and to a list-of-rows model; combined, simple, per_period, timeframes, to_dict, unify and the export/import "
        "round trip are compared; groups report full results per section; distinct = (class, #rows, order, rejected, options)")
ASSUMPTIONS = ["dropout rates are unified over two meters (documented use: dual-split mains)",
               "extra time frames in the other result of a unification are not judged"]
TECHNIQUE = "model-based monitor: Results objects vs a list-of-rows model over random histories"
NOTE = "Held on the histories observed; every row and combined value is compared."
ACS = ["active", "apparent", "reactive"]
TZS = ["UTC", "Europe/London", "US/Eastern", "Asia/Kolkata"]


def frames(rng, n, tz, touch=0.5, start=None):
    t = pd.Timestamp(start or rng.choice(["2013-10-26 20:00", "2013-03-30 22:00", "2012-01-01"]), tz=tz)
    out = []
    for _ in range(n):
        if not rng.chance(touch):
            t = t + pd.Timedelta(seconds=rng.randrange(1, 9000))
        e = t + pd.Timedelta(seconds=rng.randrange(1, 9000))
        out.append((t, e))
        t = e
    return out


def overlap(a, b):
    return a[0] < b[1] and b[0] < a[1]


def new_result(rng, cls):
    if cls is TotalEnergyResults:
        return {k: rng.choice([0.0, 1.5, rng.randrange(1000) / 8]) for k in rng.sample(ACS, rng.randrange(1, 4))}
    if cls is DropoutRateResults:
        return {"dropout_rate": rng.choice([0.0, 1.0, rng.randrange(64) / 64, np.nan]), "n_samples": rng.randrange(1, 500)}
    return {"x": rng.randrange(100), "y": float(rng.randrange(100))} if rng.chance(0.7) else {"x": rng.randrange(100)}


def make(cls):
    return cls()


def combined_want(cls, rows):
    if cls is DropoutRateResults:
        ok = [r for _, r in rows if not np.isnan(r["dropout_rate"])]
        n = sum(r["n_samples"] for r in ok)
        return sum(r["dropout_rate"] * r["n_samples"] for r in ok) / n if n else np.nan
    keys = sorted({k for _, r in rows for k in r})
    return {k: float(sum(r[k] for _, r in rows if k in r)) for k in keys}


def compare(mon, cls, res, rows, tag):
    rows = sorted(rows, key=lambda p: p[0][0])
    tfs = res.timeframes()
    mon.equal([(t.start, t.end) for t in tfs], [f for f, _ in rows], tag + ".timeframes", "covered time frames", cls=cls.__name__)
    got = res.combined()
    want = combined_want(cls, rows)
    if cls is DropoutRateResults:
        mon.check((np.isnan(want) and np.isnan(got)) or abs(got - want) < 1e-9, tag + ".combined", answer=got, expected=want)
        d = res.to_dict()["statistics"]["dropout_rate"]
        mon.check((np.isnan(want) and np.isnan(d)) or abs(d - want) < 1e-9, tag + ".to_dict", answer=d, expected=want)
    else:
        got = {k: float(v) for k, v in dict(got).items()}
        mon.check(set(got) == set(want) and all(abs(got[k] - want[k]) < 1e-6 for k in want), tag + ".combined",
                  "combined is not the sum of the rows", answer=got, expected=want, cls=cls.__name__)
        s = {k: float(v) for k, v in dict(res.simple()).items()}
        mon.equal(s, got, tag + ".simple")
        if cls is TotalEnergyResults:
            mon.equal({k: float(v) for k, v in res.to_dict()["total_energy"].items()}, got, tag + ".to_dict")
    pp = res.per_period()
    mon.equal(len(pp), len(rows), tag + ".rows")
    for (f, r), (i, row) in zip(rows, pp.iterrows()):
        mon.equal((i, row["end"]), f, tag + ".row_frame")
        for k, v in r.items():
            mon.check((np.isnan(v) and np.isnan(row[k])) or row[k] == v, tag + ".row_value", "row value changed", key=k, answer=row[k], expected=v)
        for k in pp.columns:
            if k != "end" and k not in r:
                mon.check(bool(pd.isnull(row[k])), tag + ".row_invented", "a value nobody appended", key=k, answer=row[k])
        mon.event("rows compared")
    # the returned table is a copy
    if len(pp):
        pp.iloc[0, pp.columns.get_loc("end")] = pp.index[0] + pd.Timedelta("1s")
        mon.equal([(t.start, t.end) for t in res.timeframes()], [f for f, _ in rows], tag + ".copy", "per_period is not a copy")


def w_history(mon, rng):
    cls = rng.choice([TotalEnergyResults, DropoutRateResults, Results])
    tz = rng.choice(TZS)
    pool = frames(rng, rng.randrange(1, 9), tz)
    rng.shuffle(pool)
    res, rows, rejected = make(cls), [], 0
    mon.equal(res.timeframes(), [], "history.empty")
    for _ in range(rng.randrange(1, 10)):
        if rng.chance(0.7) and pool:
            f = pool.pop()
        elif rows:
            b = rng.choice(rows)[0]   # something that may overlap an existing row
            off = [pd.Timedelta(seconds=rng.choice([-5000, -1, 0, 1, 5000])) for _ in (0, 1)]
            f = (b[0] + off[0], b[1] + off[1])
            if f[0] >= f[1]:
                continue
        else:
            continue
        r = new_result(rng, cls)
        clash = any(overlap(f, g) for g, _ in rows)
        before = dict(r)
        try:
            if rng.chance(0.7):
                res.append(TimeFrame(*f), r)
            else:
                o = make(cls)
                o.append(TimeFrame(*f), r)
                keep = o.per_period()
                res.update(o)
                mon.check(o.per_period().equals(keep), "history.other_changed", "update changed its argument")
            mon.check(not clash, "history.overlap_accepted", "overlapping results were accepted", frame=str(f))
            rows.append((f, before))
        except ValueError:
            mon.check(clash, "history.rejected", "results for a free time frame were rejected", frame=str(f), rows=[str(g) for g, _ in rows])
            rejected += 1
            # a rejected append leaves the object as it was; a rejected update may not
            if len(res.timeframes()) != len(rows):
                mon.state("history", "rejected update")
                return
        mon.equal(r, before, "history.argument") if not any(isinstance(v, float) and np.isnan(v) for v in before.values()) else None
        mon.event("results appended")
    compare(mon, cls, res, rows, "history")
    n = len(res.timeframes())
    for bad in ((f"{n}", {"active": 1}), (TimeFrame("2030-01-01", "2030-01-02", tz=tz), [1])):
        mon.raises(TypeError, lambda: Results.append(res, *bad), "history.type")
    mon.raises(TypeError, lambda: res.update({"end": 1}), "history.update_type")
    if cls is TotalEnergyResults:
        mon.raises(KeyError, lambda: res.append(TimeFrame("2030-01-01", "2030-01-02", tz=tz), {"blah": 1}), "history.junk_key")
    other = make(cls)
    res.update(other)     # nothing to add
    compare(mon, cls, res, rows, "history.after")
    mon.state(cls.__name__, len(rows), rejected, tz)


def w_good(mon, rng):
    """Sections of consecutive chunks joined into maximal sections."""
    tz, maxp = rng.choice(TZS), rng.choice([1, 10, 60])
    res = GoodSectionsResults(maxp)
    fs = frames(rng, rng.randrange(1, 6), tz, touch=0.6)
    data, want, open_ = [], [], None
    prev_end = None
    for n, (a, b) in enumerate(fs):
        adjacent = prev_end is not None and prev_end - pd.Timedelta(seconds=maxp) <= a <= prev_end
        secs = []
        if open_ is not None and not adjacent:
            want.append((open_, prev_end))
            open_ = None
        # cut points inside the chunk
        k = rng.randrange(0, 4)
        span = int((b - a).total_seconds())
        cuts = sorted(rng.sample(range(1, span), min(2 * k, max(0, span - 1) // 2 * 2))) if span > 2 else []
        cuts = [a + pd.Timedelta(seconds=c) for c in cuts]
        if open_ is not None and adjacent:
            if not cuts:
                cuts = [a + (b - a) / 2] * 1
                secs.append(TimeFrame(None, cuts[0]))
                want.append((open_, cuts[0]))
                open_ = None
                cuts = []
            else:
                e = cuts.pop(0)
                secs.append(TimeFrame(None, e))
                want.append((open_, e))
                open_ = None
        while len(cuts) >= 2:
            s, e = cuts.pop(0), cuts.pop(0)
            secs.append(TimeFrame(s, e))
            want.append((s, e))
        if cuts:
            open_ = cuts.pop(0)
            secs.append(TimeFrame(open_, None))
        data.append((a, b, secs))
        prev_end = b
    if open_ is not None:
        want.append((open_, prev_end))
    order = list(range(len(data)))
    rng.shuffle(order)
    for i in order:
        a, b, secs = data[i]
        if rng.chance(0.5):
            res.append(TimeFrame(a, b), {"sections": [list(secs)]})
        else:
            o = GoodSectionsResults(maxp)
            o.append(TimeFrame(a, b), {"sections": [list(secs)]})
            res.update(o)
    want = [(s, e) for s, e in want if s < e]
    for _ in (0, 1):   # asking twice gives the same answer
        got = [(s.start, s.end) for s in res.combined()]
        mon.equal(got, want, "good.combined", "joined sections", chunks=str(fs))
    d = res.to_dict()["statistics"]["good_sections"]
    mon.equal([(TimeFrame.from_dict(x).start, TimeFrame.from_dict(x).end) for x in d], want, "good.to_dict")
    # the cached form brings back the same sections
    out = GoodSectionsResults(maxp)
    exp = res.export_to_cache()
    if len(exp):
        out.import_from_cache(exp, [TimeFrame(a, b) for a, b, s in data])
        keep = [(a, b) for a, b, s in data if s]
        mon.equal([(t.start, t.end) for t in out.timeframes()], keep, "good.cache_frames")
        if len(keep) == len(data):
            mon.equal([(s.start, s.end) for s in out.combined()], want, "good.cache", "sections changed by the cache", chunks=str(fs))
    mon.event("sections compared", len(want))
    mon.state("good", len(data), len(want), tz, order == sorted(order))


def w_unify(mon, rng):
    cls = rng.choice([TotalEnergyResults, DropoutRateResults, GoodSectionsResults])
    tz = rng.choice(TZS)
    fs = frames(rng, rng.randrange(1, 5), tz)
    mk = (lambda: GoodSectionsResults(10)) if cls is GoodSectionsResults else cls
    a, b = mk(), mk()
    ra, rb = [], []
    cols = [rng.sample(ACS, rng.randrange(1, 4)) for _ in (0, 1)]
    if rng.chance(0.5):
        cols[1] = cols[0]
    for f in fs:
        for j, (o, rows) in enumerate(((a, ra), (b, rb))):
            if cls is GoodSectionsResults:
                n = rng.randrange(0, 4)
                span = int((f[1] - f[0]).total_seconds())
                c = sorted(rng.sample(range(span + 1), min(2 * n, (span + 1) // 2 * 2)))
                r = [(f[0] + pd.Timedelta(seconds=c[2 * i]), f[0] + pd.Timedelta(seconds=c[2 * i + 1])) for i in range(len(c) // 2)]
                o.append(TimeFrame(*f), {"sections": [[TimeFrame(*x) for x in r]]})
            elif cls is DropoutRateResults:
                r = {"dropout_rate": rng.randrange(65) / 64, "n_samples": rng.randrange(1, 500)}
                o.append(TimeFrame(*f), dict(r))
            else:
                r = {k: rng.randrange(1000) / 8 for k in cols[j]}
                o.append(TimeFrame(*f), dict(r))
            rows.append((f, r))
    keep = b.per_period()
    miss = rng.chance(0.25)
    if miss:
        g = fs[-1]
        if rng.chance(0.5):
            f2 = (g[1] + pd.Timedelta(seconds=5), g[1] + pd.Timedelta(seconds=50))       # start unknown to b
        else:
            f2 = None
        if f2:
            a.append(TimeFrame(*f2), {"sections": [[]]} if cls is GoodSectionsResults else new_result(rng, cls))
        else:
            b2 = mk()
            for (f, r) in rb:
                end = f[1] - pd.Timedelta(milliseconds=500) if f is rb[-1][0] else f[1]
                b2.append(TimeFrame(f[0], end), {"sections": [[TimeFrame(*x) for x in r]]} if cls is GoodSectionsResults else dict(r))
            b = b2
        mon.raises(RuntimeError, lambda: a.unify(b), "unify.mismatch")
        mon.state("unify mismatch", cls.__name__, bool(f2))
        return
    a.unify(b)
    mon.equal([(t.start, t.end) for t in a.timeframes()], fs, "unify.timeframes")
    if cls is not GoodSectionsResults:
        mon.check(b.per_period().equals(keep), "unify.other_changed")
    pp = a.per_period()
    for n, f in enumerate(fs):
        x, y, row = ra[n][1], rb[n][1], pp.iloc[n]
        if cls is GoodSectionsResults:
            want = [(max(p[0], q[0]), min(p[1], q[1])) for p in x for q in y if max(p[0], q[0]) < min(p[1], q[1])]
            mon.equal([(s.start, s.end) for s in row["sections"]], want, "unify.sections")
        elif cls is DropoutRateResults:
            mon.close(float(row["dropout_rate"]), (x["dropout_rate"] + y["dropout_rate"]) / 2, "unify.dropout")
            mon.equal(float(row["n_samples"]), float(x["n_samples"] + y["n_samples"]), "unify.n_samples")
        else:
            want = {k: x.get(k, 0) + y.get(k, 0) for k in set(x) | set(y)}
            got = {k: float(row[k]) for k in pp.columns if k != "end"}
            mon.equal(got, want, "unify.energy")
        mon.event("rows unified")
    mon.state("unify", cls.__name__, len(fs), cols[0] == cols[1])


def w_cache(mon, rng):
    cls = rng.choice([TotalEnergyResults, DropoutRateResults])
    tz = rng.choice(TZS)
    fs = frames(rng, rng.randrange(1, 7), tz)
    res, rows = cls(), []
    for f in fs:
        r = new_result(rng, cls)
        res.append(TimeFrame(*f), dict(r))
        rows.append((f, r))
    exp = res.export_to_cache()
    # the cache may hold several results with the same start but other ends
    extra = cls()
    base = rng.choice(fs)
    extra.append(TimeFrame(base[0], base[1] + pd.Timedelta(seconds=rng.choice([1, 100]))), new_result(rng, cls))
    if rng.chance(0.5):
        exp = pd.concat([exp, extra.export_to_cache()]).sort_index(kind="stable")
    ask = [f for f in fs if rng.chance(0.6)]
    secs = [TimeFrame(*f) for f in ask]
    for f in fs:
        if rng.chance(0.2):   # a section that is not cached
            secs.append(TimeFrame(f[0] + pd.Timedelta(milliseconds=1), f[1]))
        if rng.chance(0.2):
            secs.append(TimeFrame(f[0], f[1] + pd.Timedelta(days=1)))
    rng.shuffle(secs)
    keep = exp.copy()
    out = cls()
    out.import_from_cache(exp, secs)
    mon.check(exp.equals(keep), "cache.argument", "import changed the cached table")
    want = [(f, r) for f, r in rows if f in ask]
    if not want:
        mon.equal(len(out._data), 0, "cache.nothing")
        return
    mon.equal([(t.start, t.end) for t in out.timeframes()], [f for f, _ in want], "cache.timeframes")
    compare(mon, cls, out, want, "cache") if cls is DropoutRateResults else None
    if cls is TotalEnergyResults:
        got = {k: float(v) for k, v in dict(out.combined()).items()}
        w = combined_want(cls, want)
        mon.check(all(abs(got.get(k, 0) - w.get(k, 0)) < 1e-6 for k in ACS), "cache.combined", answer=got, expected=w)
    mon.state("cache", cls.__name__, len(fs), len(want), tz)
    mon.event("cached rows compared", len(want))


def w_group(mon, rng):
    """full results of a group: one row per requested section, unified over its meters."""
    tz = rng.choice(["UTC", "Europe/London"])
    d = gen.Data("p21-%d" % rng.randrange(10 ** 9), tz)
    n = rng.randrange(2, 4)
    for i in range(1, n + 1):
        cols = [("power", a) for a in rng.sample(ACS, rng.randrange(1, 3))]
        model = "%s-%d" % (d.name, i)
        d.devices[model] = gen.device(model, cols, 6, 30, None, None)
        df = gen.rand_frame_df(rng, 80, cols, period=6, tz=tz, gaps=0.1, maxgap=4, start="2013-10-26 22:00")
        d.meter(1, i, df, model, site=i == 1, of=None if i == 1 else 1)
        if i > 1:
            d.appliance(1, "fridge", i, [i])
    ds = d.open()
    try:
        el = ds.buildings[1].elec
        t0 = max(d.df(1, i).index[0] for i in range(1, n + 1))
        cuts = sorted(rng.sample(range(1, 400), 2 * rng.randrange(1, 4)))
        secs = [TimeFrame(t0 + pd.Timedelta(seconds=cuts[2 * i]), t0 + pd.Timedelta(seconds=cuts[2 * i + 1])) for i in range(len(cuts) // 2)]
        cp = lambda: [TimeFrame(s) for s in secs]
        mon.raises(RuntimeError, lambda: el.total_energy(full_results=True), "group.no_sections")
        singles = [m.total_energy(sections=cp(), full_results=True).per_period() for m in el.meters]
        got = el.total_energy(sections=cp(), full_results=True)
        frames_ = [[(t, e) for t, e in zip(s.index, s["end"])] for s in singles]
        if all(f == frames_[0] for f in frames_):
            pp = got.per_period()
            for k, f in enumerate(frames_[0]):
                want = {}
                for s in singles:
                    for c in s.columns:
                        if c != "end":
                            x = float(s[c].iloc[k])     # nothing measured: counts as zero if another meter measured
                            want[c] = np.nansum([want.get(c, np.nan), x]) if not np.isnan([want.get(c, np.nan), x]).all() else np.nan
                g = {c: float(pp[c].iloc[k]) for c in pp.columns if c != "end"}
                mon.check(set(g) == set(want) and all(np.isclose(g[c], want[c], rtol=1e-9, atol=1e-12, equal_nan=True) for c in want), "group.energy", answer=g, expected=want)
                mon.event("sections unified")
        mon.state("group", n, len(secs))
    finally:
        ds.store.close()
