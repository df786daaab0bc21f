"""P16: on/off activity of meters."""
import numpy as np
import pandas as pd

from checks import gen
from checks.p08 import reference
from nilmtk.appliance import Appliance
from nilmtk.electric import get_activations
from nilmtk.metergroup import MeterGroup

WORKLOADS = [("activations", 250, 4000), ("meter", 60, 700), ("switches", 40, 500), ("histogram", 70, 500), ("script", 10, 100)]
RULE = ("random on/off series (regular and irregular sampling, missing values, runs touching the ends, threshold ties) are "
        "scanned by an independent state machine; when_on, get_activations, switch_times, simultaneous_switches, "
        "activity_histogram and the activity script are compared with it; distinct = (#runs, merged, dropped, NaN, options)")
ASSUMPTIONS = ["an activation is observed only if both its start and end are", "one extra row before the border is tolerated",
               "bins of at most an hour where the clock changes"]
TECHNIQUE = "trace monitor: reported activity vs independent on/off state machine over the stored samples"
NOTE = "Held on the executions observed; every activation, switch and bin is compared."


def runs(v, thr):
    """[(first on row, first off row after)] of completely observed runs."""
    out, start = [], None
    for i in range(1, len(v)):
        on, was = bool(v[i] >= thr), bool(v[i - 1] >= thr)
        if on and not was:
            start = i
        if was and not on and start is not None:
            out.append((start, i))
            start = None
    return out


def want_activations(t, v, min_off, min_on, thr):
    """[(first on row, first off row)] after smoothing and dropping, t in ns."""
    rs = runs(v, thr)
    merged = []
    for a, b in rs:
        if merged and min_off > 0 and (t[a] - t[merged[-1][1]]) < min_off * 10 ** 9:
            merged[-1] = (merged[-1][0], b)
        else:
            merged.append((a, b))
    return rs, merged, [(a, b) for a, b in merged if t[b] - t[a] >= min_on * 10 ** 9]


def rand_power(rng, n, thr, nan=0.0):
    v, i = np.zeros(n), 0
    on = rng.chance(0.3)
    while i < n:
        k = rng.randrange(1, 9)
        lo, hi = (thr, thr + 500) if on else (0, thr)
        seg = rng.np.integers(int(lo * 8), int(hi * 8), min(k, n - i)) / 8.0
        if on and rng.chance(0.3):
            seg[rng.randrange(len(seg))] = thr          # exactly on the threshold counts as on
        v[i:i + k] = seg
        i += k
        on = not on
    if nan:
        v[rng.np.random(n) < nan] = np.nan
    return v


def judge(mon, got, t, v, idx, border, min_off, min_on, thr, what):
    rs, merged, keep = want_activations(t, v, min_off, min_on, thr)
    cand = []
    for a, b in keep:
        los = {max(0, a - border), max(0, a - 1 - border)}
        hi = min(len(v), b + border)
        cand.append((los, hi))
    k = 0
    for los, hi in cand:
        full = [lo for lo in los if not np.isnan(v[lo:hi]).any()]
        g = got[k] if k < len(got) else None
        hit = g is not None and any(len(g) == hi - lo and g.index[0].value == t[lo] for lo in los)
        if len(full) == len(los):
            mon.check(hit, what + ".missing", "an activation is missing or has other bounds", expected_rows=(sorted(los), hi),
                      got=None if g is None else (g.index[0], g.index[-1]), border=border, min_off=min_off, min_on=min_on,
                      threshold=thr, values=v.tolist())
        elif not full:
            mon.check(not hit, what + ".missing_values", "an activation with missing values was returned", rows=(sorted(los), hi))
        if hit:
            lo = [lo for lo in los if len(g) == hi - lo and g.index[0].value == t[lo]][0]
            mon.check(np.array_equal(gen.ns(g.index), t[lo:hi]) and np.array_equal(g.values, v[lo:hi]), what + ".rows",
                      "an activation's samples differ from the series")
            k += 1
    mon.equal(k, len(got), what + ".extra", "an activation was returned that is none", values=v.tolist(), threshold=thr,
              min_off=min_off, min_on=min_on, border=border, returned=[(g.index[0], g.index[-1]) for g in got])
    mon.event("activations compared", len(keep))
    return len(rs), len(merged), len(keep)


def w_activations(mon, rng):
    n = rng.choice([1, 2, 5, 30, 120])
    thr = rng.choice([5, 10, 50.5, 100])
    idx = gen.rand_index(rng, n, period=rng.choice([1, 6]), gaps=rng.choice([0, 0.1]), tz=rng.choice([None, "UTC", "Europe/London"]))
    v = rand_power(rng, n, thr, rng.choice([0, 0, 0.05]))
    s = pd.Series(v, index=idx)
    kw = dict(min_off_duration=rng.choice([0, 0, 6, 12, 30]), min_on_duration=rng.choice([0, 0, 6, 18]),
              border=rng.choice([0, 1, 1, 3]), on_power_threshold=thr)
    before = s.copy()
    got = get_activations(s, **kw)
    st = judge(mon, got, gen.ns(idx), v, idx, kw["border"], kw["min_off_duration"], kw["min_on_duration"], thr, "activations")
    mon.check(s.equals(before), "activations.argument", "the series was changed")
    mon.state("act", tuple(min(x, 4) for x in st), kw["border"], kw["min_off_duration"] > 0, kw["min_on_duration"] > 0, bool(np.isnan(v).any()))


def dataset(rng, nsub, n, period=6, tz="Europe/London", gaps=0.0, start=None, nan=0.0):
    d = gen.Data("p16-%d" % rng.randrange(10 ** 9), tz)
    model = d.name + "dev"
    cols = [("power", "active")]
    d.devices[model] = gen.device(model, cols, period, period * 5)
    types = ["fridge", "kettle", "light", "television", "vacuum cleaner"]
    for i in range(1, nsub + 2):
        idx = gen.rand_index(rng, n, period=period, gaps=gaps, tz=tz, maxgap=rng.choice([3, 20]), start=start or "2013-10-26 22:00")
        v = rand_power(rng, n, rng.choice([20, 100, 1000]), nan)
        df = pd.DataFrame(v[:, None], index=idx, columns=gen.mi(cols))
        d.meter(1, i, df, model, of=1, site=i == 1)
        if i > 1:
            for t in rng.sample(types, rng.choice([1, 1, 2, 3])):
                md = {}
                k = rng.randrange(5)
                if k == 4:
                    md["nominal_consumption"] = {"on_power": rng.choice([4, 30, 400])}
                if k in (0, 4):
                    md["on_power_threshold"] = rng.choice([2, 15, 80, 700])
                elif k == 1:
                    md["nominal_consumption"] = {"on_power": rng.choice([4, 30, 400])}
                elif k == 2:
                    md["nominal_consumption"] = {"standby": 3}
                d.appliance(1, t, 1 + sum(a["type"] == t for a in d.buildings[1]["appliances"]), [i], **md)
    return d


def threshold(apps):
    out = []
    for a in apps:
        if "on_power_threshold" in a:
            out.append(a["on_power_threshold"])
        elif "on_power" in a.get("nominal_consumption", {}):
            out.append(a["nominal_consumption"]["on_power"])
        else:
            out.append(Appliance.appliance_types[a["type"]].get("on_power_threshold", 10))
    return min(out) if out else 10


def apps_of(d, ids):
    return [a for a in d.buildings[1]["appliances"] if set(a["meters"]) & set(ids)]


def w_meter(mon, rng):
    d = dataset(rng, rng.randrange(1, 4), rng.choice([10, 80]), gaps=rng.choice([0, 0.05]))
    ds = d.open()
    saved = {t: dict(x) for t, x in Appliance.appliance_types.items()}
    try:
        for t in rng.sample(sorted(saved), 5) + ["fridge", "kettle", "light", "television", "vacuum cleaner"]:
            if t in saved and rng.chance(0.6):
                Appliance.appliance_types[t] = dict(saved[t], min_on_duration=rng.choice([6, 12, 20]), min_off_duration=rng.choice([7, 18, 30]))
        el = ds.buildings[1].elec
        ids = sorted(d.buildings[1]["meters"])
        i = rng.choice(ids)
        m = el[i]
        df = d.df(1, i)
        apps = apps_of(d, [i])
        thr = threshold(apps)
        mon.equal(m.on_power_threshold(), thr, "meter.threshold", "on power threshold", appliances=apps)
        both = rng.sample(ids, min(2, len(ids)))
        mon.equal(MeterGroup([el[j] for j in both]).on_power_threshold(), threshold(apps_of(d, both)), "group.threshold")
        mins = {}
        for k in ("min_on_duration", "min_off_duration"):
            vals = [Appliance.appliance_types[a["type"]][k] for a in apps if k in Appliance.appliance_types[a["type"]]]
            mins[k] = max(vals) if vals else 0
            mon.equal(getattr(m, k)(), mins[k], "meter." + k)
        kw = {}
        if rng.chance(0.4):
            thr = kw["on_power_threshold"] = rng.choice([1, 50, 200, 1e6])
        on = list(m.when_on(**kw))
        got = pd.concat(on)
        mon.check(np.array_equal(gen.ns(got.index), gen.ns(df.index)), "when_on.index")
        mon.check(np.array_equal(got.values.astype(bool), df.values[:, 0] >= thr), "when_on.values", "on means power at or above the threshold",
                  threshold=thr, power=df.values[:, 0].tolist(), got=got.values.tolist())
        akw = dict(kw)
        if rng.chance(0.4):
            mins["min_off_duration"] = akw["min_off_duration"] = rng.choice([0, 12, 60])
        if rng.chance(0.4):
            mins["min_on_duration"] = akw["min_on_duration"] = rng.choice([0, 12])
        border = 1
        if rng.chance(0.3):
            border = akw["border"] = rng.choice([0, 2])
        acts = m.get_activations(**akw)
        dev = d.devices[d.name + "dev"]
        lab, val = reference(df, dev["sample_period"], "mean", "ffill", -(-dev["max_sample_period"] // dev["sample_period"]))
        st = judge(mon, acts, lab, val[:, 0], None, border, mins["min_off_duration"], mins["min_on_duration"], thr, "meter")
        mon.state("meter", tuple(min(x, 3) for x in st), len(apps), tuple(sorted(akw)))
    finally:
        Appliance.appliance_types.update(saved)
        ds.store.close()


def to_ns(x):
    return pd.Timestamp(x).value


def w_switches(mon, rng):
    d = dataset(rng, rng.randrange(1, 5), rng.choice([2, 40, 100]))
    ds = d.open()
    try:
        el = ds.buildings[1].elec
        thr = rng.choice([40, 0, 100.5, 400])
        count = {}
        for i in d.buildings[1]["meters"]:
            v, t = d.df(1, i).values[:, 0], gen.ns(d.df(1, i).index)
            want = [int(t[k]) for k in range(1, len(v)) if abs(v[k] - v[k - 1]) > thr]
            got = [to_ns(x) for x in (el[i].switch_times() if thr == 40 else el[i].switch_times(thr))]
            mon.equal(got, want, "switches.times", "instants of steps above the threshold", threshold=thr)
            mon.event("switches compared", len(want))
            if i > 1:
                for x in want:
                    count[x] = count.get(x, 0) + 1
        got = el.simultaneous_switches(thr)
        got = {to_ns(k): int(n) for k, n in got.items()}
        mon.equal(got, {k: n for k, n in count.items() if n >= 2}, "switches.simultaneous", "submeters switching at the same instant")
        mon.state("switch", len(d.buildings[1]["meters"]), min(len(got), 3))
    finally:
        ds.store.close()


def w_histogram(mon, rng):
    period, binw, nb, sp = rng.choice([("D", "h", 24, 1200), ("D", "h", 24, 1800), ("h", "min", 60, 60), ("D", "30min", 48, 600),
                                       ("W", "D", 7, 7200), ("h", "10min", 6, 60)])
    tz = rng.choice(["UTC", "Europe/London", "Asia/Kolkata"])
    if tz == "Asia/Kolkata" and binw in ("h", "D"):
        tz = "UTC"
    starts = ["2013-06-07 11:40", "2013-02-03 00:00", "2013-02-02 23:50"]
    if binw not in ("D",):
        starts += ["2013-10-26 20:10"] * 2 + ["2013-10-26 20:10", "2014-03-29 21:30"]
    n = rng.choice([60, 200, 400])
    if rng.chance(0.12):                # many days in few bins
        period, binw, nb, sp = rng.choice([("D", "h", 24, 1800), ("h", "min", 60, 60)])
        n = 48 * 320 if sp == 1800 else 60 * 200
    d = dataset(rng, 1, n, period=sp, tz=tz, gaps=rng.choice([0, 0.03]), start=rng.choice(starts))
    if "10-26" in str(d.df(1, 2).index[0]) or rng.chance(0.15):      # little activity, e.g. only in one of the repeated hours
        df = d.df(1, 2)
        t = (gen.ns(df.index) - pd.Timestamp("2013-10-27 00:00").value) // (60 * 10 ** 9)
        near = np.flatnonzero((t >= -20) & (t < 140))
        at = rng.np.choice(near if len(near) and rng.chance(0.7) else len(df), rng.randrange(1, 5))
        df.iloc[:, 0] = 0.0
        df.iloc[at, 0] = 5000.0
    ds = d.open()
    try:
        m = ds.buildings[1].elec[2]
        df = d.df(1, 2)
        thr = threshold(apps_of(d, [2]))
        binsec = int(pd.Timedelta(binw if binw[0].isdigit() else "1" + binw).total_seconds())
        dev = d.devices[d.name + "dev"]
        lab, val = reference(df, binsec, "max", "ffill", -(-dev["max_sample_period"] // binsec))
        if len(lab) < 5:
            return
        want = np.zeros(nb, dtype=int)
        local = pd.DatetimeIndex(pd.to_datetime(lab)).tz_localize("UTC").tz_convert(tz)
        seen = {}
        for w, x in zip(local, val[:, 0]):
            wall = w.tz_localize(None)
            seen[wall] = max(seen.get(wall, 0), int(x >= thr))
        for wall, on in seen.items():
            if period == "D":
                k = int((wall - wall.normalize()).total_seconds()) // binsec
            elif period == "h":
                k = int((wall - wall.floor("h")).total_seconds()) // binsec
            else:
                k = (wall.dayofweek + 1) % 7        # pandas weeks start on Sunday here
            want[k] += on
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = np.asarray(m.activity_histogram(period=period, bin_duration=binw))
        mon.equal(len(got), nb, "histogram.bins")
        if period == "W":
            ok = sorted(got) == sorted(want) and any(np.array_equal(np.roll(want, k), got) for k in range(7))
        else:
            ok = np.array_equal(got, want)
        mon.check(ok, "histogram.counts", "activity per bin", got=got.tolist(), want=want.tolist(), period=period, bin=binw, start=df.index[0])
        mon.raises(ValueError, lambda: m.activity_histogram(period="D", bin_duration="7h"), "histogram.divides")
        mon.state("hist", period, binw, tz, n)
        mon.event("histogram bins compared", nb)
    finally:
        ds.store.close()


def w_script(mon, rng):
    d = dataset(rng, rng.randrange(1, 3), 60)
    apps = d.buildings[1]["appliances"]
    if rng.chance(0.5):
        # one appliance per meter
        keep = {}
        for a in apps:
            keep.setdefault(a["meters"][0], a)
        apps = d.buildings[1]["appliances"] = list(keep.values())
    for i in {a["meters"][0] for a in apps}:    # the script is about the dominant one of several
        mine = [a for a in apps if a["meters"] == [i]]
        if len(mine) > 1 and rng.chance(0.8):
            rng.choice(mine)["dominant_appliance"] = True
    rng.shuffle(apps)
    count = {}
    for a in apps:
        a["instance"] = count[a["type"]] = count.get(a["type"], 0) + 1
    about = {}
    for a in apps:
        i = a["meters"][0]
        if i not in about or (a.get("dominant_appliance") and not about[i].get("dominant_appliance")):
            about[i] = a
    ds = d.open()
    try:
        path = gen.scratch(".h5")
        ds.get_activity_script(path)
        with pd.HDFStore(path, "r") as st:
            keys = sorted(st.keys())
            want = {}
            for a in about.values():
                want["/building1/%s__%d" % (a["type"].replace(" ", "_"), a["instance"])] = a["meters"][0]
            mon.equal(keys, sorted(want), "script.keys")
            for k, i in want.items():
                acts = ds.buildings[1].elec[i].get_activations()
                s = st[k]
                ev = sorted([(x.index[0].value, True) for x in acts] + [(x.index[-1].value, False) for x in acts])
                got = sorted((pd.Timestamp(t).value, bool(v)) for t, v in s.items())
                mon.equal(got, ev, "script.events", "starts and ends of the activations", key=k)
                mon.check(list(s.index) == sorted(s.index), "script.sorted")
        mon.state("script", len(want), len(apps) > len(want))
    finally:
        ds.store.close()
