"""P27: a window makes a dataset look as if only the samples inside existed."""
import numpy as np
import pandas as pd

from checks import gen
from nilmtk.timeframe import TimeFrame

WORKLOADS = [("window", 44, 800), ("sequence", 24, 500), ("zones", 40, 700), ("dates", 30, 500)]
RULE = ("random datasets get a sequence of windows (naive and zone-aware bounds, bare dates, months and years, clock changes, one-sided, nested, removed again); "
        "under each window loading, energies, good sections, uptime, activations, switch times, group sums and correlations are "
        "compared with a second dataset that stores only the rows inside; distinct = (bounds form, zone, gaps, #rows inside)")
ASSUMPTIONS = ["at least two samples of every meter lie inside", "extents may reach to the window's bounds where no sample lies"]
TECHNIQUE = "metamorphic monitor: answers under a window vs answers of a dataset holding only the rows inside"
NOTE = "Held on the executions observed; every answer is compared."
W = [("power", "active")]


def make(rng, tz=None, n=None, gaps=None, nsub=2):
    tz = tz or rng.choice(["UTC", "Europe/London", "US/Eastern", "Asia/Kolkata"])
    d = gen.Data("p27-%d" % rng.randrange(10 ** 9), tz)
    model = d.name + "dev"
    d.devices[model] = gen.device(model, W, 6, rng.choice([6, 18]), None, None)
    gaps = rng.choice([0, 0.1]) if gaps is None else gaps
    n = n or rng.choice([40, 120])
    start = rng.choice(["2013-10-27 00:30", "2013-06-03 23:50", "2013-11-03 00:40", "2013-03-31 00:30"])
    idx = gen.rand_index(rng, n, period=6, tz=tz, gaps=gaps, maxgap=12, start=start)
    if rng.chance(0.5):    # longer span: cross the clock change
        idx = idx.append(gen.rand_index(rng, n, period=6, tz=tz, gaps=gaps, maxgap=12, start=(idx[0].tz_localize(None) + pd.Timedelta(hours=5))))
    for i in range(1, nsub + 2):
        ix = idx if rng.chance(0.7) else idx[rng.np.random(len(idx)) > 0.1]
        v = np.round(gen.rand_values(rng, len(ix), 1), 1)
        d.meter(1, i, pd.DataFrame(v, index=ix, columns=gen.mi(W)), model, of=1, site=i == 1)
        if i > 1:
            d.appliance(1, "fridge", i, [i])
    return d


def cut(d, s, e):
    """The same dataset with only the rows inside, or None if a meter has fewer than two."""
    c = gen.Data(d.name + "cut", d.tz)
    ren = {}
    for m, dev in d.devices.items():
        ren[m] = m + "cut"
        c.devices[m + "cut"] = dict(dev, model=m + "cut")
    for b, B in d.buildings.items():
        for i, m in B["meters"].items():
            t = gen.ns(m["df"].index)
            ok = np.ones(len(t), bool)
            if s is not None:
                ok &= t >= s.value
            if e is not None:
                ok &= t < e.value
            if ok.sum() < 2:
                return None
            c.meter(b, i, m["df"][ok], ren[m["device"]], of=m["of"], site=m["site"])
        for a in B["appliances"]:
            c.appliance(b, a["type"], a["instance"], a["meters"])
    return c


def bounds(rng, d):
    idx = d.df(1, 1).index
    span = (idx[-1] - idx[0]).total_seconds()
    s = idx[0] + pd.Timedelta(seconds=int(span * rng.random()))
    e = idx[0] + pd.Timedelta(seconds=int(span * rng.random()))
    if rng.chance(0.3):
        s = idx[rng.randrange(len(idx))]
    if rng.chance(0.3):
        e = idx[rng.randrange(len(idx))]
    if s > e:
        s, e = e, s
    if rng.chance(0.15):
        s = None
    if rng.chance(0.15):
        e = None
    if s is not None and e is not None and s >= e:
        return bounds(rng, d)
    return s, e


def usable(t):
    """A naive bound must name one instant."""
    if t is None:
        return True
    try:
        return t.tz_localize(None).tz_localize(t.tz) == t
    except Exception:
        return False


def answers(el, full=True, end=None):
    """Everything a user may ask of a building.

    Where the data goes on beyond the window's end, a good section reaches up to that end; such a
    section is recorded up to its last sample."""
    out = {}
    for m in el.meters:
        i = m.instance()
        out["rows", i] = pd.concat(list(m.load()))
        out["resampled", i] = next(m.load(sample_period=12)) if full else None
        out["energy", i] = m.total_energy().to_dict()
        secs = [(s.start.value, s.end.value) for s in m.good_sections()]
        up = m.uptime()
        last = out["rows", i].index[-1].value
        if secs and end is not None and secs[-1][1] == end.value and last < end.value:
            up -= pd.Timedelta(end.value - last, "ns")
            secs[-1] = (secs[-1][0], last)
            if secs[-1][0] >= last:
                secs.pop()
        out["sections", i] = secs
        out["uptime", i] = pd.Timedelta(up)
        act = m.get_activations(min_off_duration=0, min_on_duration=0, border=0, on_power_threshold=500)
        out["activations", i] = [(a.index[0].value, a.index[-1].value, float(a.sum())) for a in act]
        out["switches", i] = [pd.Timestamp(t).value for t in m.switch_times(threshold=100)]
        out["vampire", i] = m.vampire_power()
        out["when_on", i] = int(sum(int(c.sum()) for c in m.when_on(on_power_threshold=700)))
    if full:
        out["group energy"] = el.total_energy().to_dict()
    return out


def compare(mon, got, want, tag, **kw):
    for k in want:
        a, b = got[k], want[k]
        name = k[0] if isinstance(k, tuple) else k
        if isinstance(b, pd.DataFrame):
            ok = len(a) == len(b) and np.array_equal(gen.ns(a.index), gen.ns(b.index)) and np.allclose(a.values.astype(float), b.values.astype(float), equal_nan=True)
            mon.check(ok, "%s.%s" % (tag, name), "answer under the window differs", rows=(len(a), len(b)), **kw)
        elif isinstance(b, dict):
            mon.check(set(a) == set(b) and all(np.isclose(a[q], b[q], rtol=1e-9, atol=1e-12, equal_nan=True) for q in b), "%s.%s" % (tag, name), answer=a, expected=b, **kw)
        elif isinstance(b, float):
            mon.close(float(a), b, "%s.%s" % (tag, name), rtol=1e-9, **kw)
        else:
            mon.equal(a, b, "%s.%s" % (tag, name), "answer under the window differs", **kw)
        mon.event("answers compared")


def set_window(rng, ds, s, e):
    form = rng.choice(["str", "naive", "frame"])
    if form == "frame" or not (usable(s) and usable(e)):
        ds.store.window = TimeFrame(s, e)
        return "frame"
    f = (lambda t: None if t is None else str(t.tz_localize(None))) if form == "str" else (lambda t: None if t is None else t.tz_localize(None))
    ds.set_window(f(s), f(e))
    return form


def w_window(mon, rng):
    d = make(rng)
    s, e = bounds(rng, d)
    c = cut(d, s, e)
    if c is None:
        return
    ds, ref = d.open(), c.open()
    try:
        form = set_window(rng, ds, s, e)
        w = ds.store.window
        mon.equal((w.start, w.end), (s, e), "window.bounds", "naive bounds are in the dataset's zone", form=form)
        el, rl = ds.buildings[1].elec, ref.buildings[1].elec
        compare(mon, answers(el, end=e), answers(rl), "window", start=str(s), end=str(e), form=form)
        for i in (1, 2, 3):
            tf = el[i].get_timeframe()
            rt = rl[i].get_timeframe()
            full = d.df(1, i).index
            lo = max(full[0], s) if s is not None else full[0]
            hi = min(full[-1], e) if e is not None else full[-1]
            mon.equal((tf.start, tf.end), (lo, hi), "window.extent")
            mon.check(tf.start <= rt.start and rt.end <= tf.end, "window.extent_covers")
        mon.state("window", form, d.tz, len(c.df(1, 1)), s is None, e is None)
    finally:
        ds.store.close()
        ref.store.close()


def w_sequence(mon, rng):
    """Windows one after another; each answer depends on the last window only."""
    d = make(rng, n=40)
    other = make(rng, n=40)
    ds, od = d.open(), other.open()
    try:
        el = ds.buildings[1].elec
        whole = answers(el, full=False)
        oth = answers(od.buildings[1].elec, full=False)
        for _ in range(rng.randrange(2, 5)):
            if rng.chance(0.25):
                if rng.chance(0.5):
                    ds.set_window()
                else:
                    ds.store.window.clear()
                compare(mon, answers(el, full=False), whole, "sequence.cleared")
                continue
            s, e = bounds(rng, d)
            c = cut(d, s, e)
            if c is None:
                continue
            set_window(rng, ds, s, e)
            ref = c.open()
            try:
                compare(mon, answers(el, full=False, end=e), answers(ref.buildings[1].elec, full=False), "sequence")
            finally:
                ref.store.close()
        compare(mon, answers(od.buildings[1].elec, full=False), oth, "sequence.other_dataset")
        ds.set_window()
        compare(mon, answers(el, full=False), whole, "sequence.restored")
        mon.state("sequence", d.tz, other.tz)
    finally:
        ds.store.close()
        od.store.close()


def w_zones(mon, rng):
    """The zone in which the data is kept does not change what is measured."""
    d = make(rng, tz="UTC", n=60)
    zone = rng.choice(["Europe/London", "US/Eastern", "Asia/Kolkata", "Australia/Lord_Howe"])
    z = gen.Data(d.name + "z", zone)
    for m, dev in d.devices.items():
        z.devices[m + "z"] = dict(dev, model=m + "z")
    for i, m in d.buildings[1]["meters"].items():
        z.meter(1, i, m["df"].tz_convert(zone), m["device"] + "z", of=m["of"], site=m["site"])
    for a in d.buildings[1]["appliances"]:
        z.appliance(1, a["type"], a["instance"], a["meters"])
    ds, zs = d.open(), z.open()
    try:
        s, e = bounds(rng, d)
        if cut(d, s, e) is None:
            s = e = None
        ds.store.window = TimeFrame(s, e)
        zs.store.window = TimeFrame(s, e) if rng.chance(0.5) else TimeFrame(None if s is None else s.tz_convert(zone), None if e is None else e.tz_convert(zone))
        # the half-hour zones keep the 12 s grid
        compare(mon, answers(zs.buildings[1].elec), answers(ds.buildings[1].elec), "zones", zone=zone)
        for m in zs.buildings[1].elec.meters:
            mon.equal(str(next(m.load()).index.tz), zone, "zones.index", "data must stay in its own zone")
        mon.state("zones", zone, s is None, e is None)
    finally:
        ds.store.close()
        zs.store.close()


def w_dates(mon, rng):
    """Bounds written as people write them: days, months, years, times of day."""
    import datetime
    tz = rng.choice(["UTC", "Europe/London", "US/Eastern", "Asia/Kolkata"])
    d = gen.Data("p27-%d" % rng.randrange(10 ** 9), tz)
    period = rng.choice([600, 1200, 3600])
    model = d.name + "dev"
    d.devices[model] = gen.device(model, W, period, period, None, None)
    first = pd.Timestamp(rng.choice(["2012-12-30", "2013-02-26", "2013-06-29", "2012-02-27"]), tz=tz)
    t = pd.date_range(first, periods=rng.choice([3, 4, 5]) * 86400 // period, freq="%ds" % period)
    for i in (1, 2):
        ix = t if rng.chance(0.5) else t[rng.np.random(len(t)) > 0.1]
        d.meter(1, i, pd.DataFrame(np.round(gen.rand_values(rng, len(ix), 1), 1), index=ix, columns=gen.mi(W)), model, of=1, site=i == 1)
        if i > 1:
            d.appliance(1, "fridge", i, [i])
    ds = d.open()
    try:
        for _ in range(6):
            def bound():
                if rng.chance(0.15):
                    return None, None
                day = (first + pd.Timedelta(days=rng.randrange(0, 5), hours=2)).tz_localize(None).normalize()
                k = rng.randrange(8)
                if k == 0:
                    text = day.strftime("%Y-%m-%d %H:%M")
                elif k == 1:
                    day = day.replace(day=1)
                    text = day.strftime("%Y-%m")
                elif k == 2:
                    day = day.replace(month=1, day=1)
                    text = day.strftime("%Y")
                elif k == 3:
                    day += pd.Timedelta(hours=rng.randrange(24))
                    text = day.strftime("%Y-%m-%d %H:%M")
                elif k == 4:
                    text = day.to_pydatetime() if rng.chance(0.5) else datetime.date(day.year, day.month, day.day)
                elif k == 5:
                    text = day.strftime("%m/%d/%Y") if rng.chance(0.5) else day.strftime("%d %b %Y")
                else:
                    text = day.strftime("%Y-%m-%d")
                return text, day.tz_localize(tz)
            (a, s), (b, e) = bound(), bound()
            if s is not None and e is not None and s >= e:
                mon.raises(ValueError, lambda: ds.set_window(a, b), "dates.reversed")
                continue
            ds.set_window(a, b)
            w = ds.store.window
            mon.note("dates", a, b, tz)
            mon.equal((w.start, w.end), (s, e), "dates.bounds", start=str(a), end=str(b))
            el = ds.buildings[1].elec
            for i in (1, 2):
                df = d.df(1, i)
                n = gen.ns(df.index)
                ok = (n >= (s.value if s is not None else n[0])) & (n < (e.value if e is not None else n[-1] + 1))
                rows = pd.concat(list(el[i].load())) if ok.any() else pd.concat([pd.DataFrame()] + list(el[i].load()))
                mon.check(len(rows) == ok.sum() and (not ok.any() or (np.array_equal(gen.ns(rows.index), n[ok])
                          and np.array_equal(rows.values.astype(float), df.values[ok].astype(float)))), "dates.rows",
                          "rows inside the window", start=str(a), end=str(b), rows=len(rows), expected=int(ok.sum()))
                mon.event("windows by date")
            mon.state("dates", tz, type(a).__name__, type(b).__name__, s is None, e is None)
    finally:
        ds.store.close()
