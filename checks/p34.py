"""P34: descriptions and labels of datasets, buildings, groups, meters and appliances."""
import numpy as np
import pandas as pd

from checks import gen
from checks.p11 import expected
from checks.p10 import energy_ref
from checks.p15 import close
from nilmtk import utils
from nilmtk.metergroup import MeterGroup
from nilmtk.timeframe import TimeFrame

WORKLOADS = [("describe", 24, 400), ("labels", 120, 1500), ("shares", 40, 450), ("rmse", 60, 700)]
RULE = ("random datasets of one to three buildings (metadata present or absent, gaps, windows with and without data, disabled "
        "mains) are described; every entry is recomputed from the stored samples or the metadata written; labels and printed "
        "forms of random meters, groups and appliances are rebuilt from the metadata; distinct = (#buildings, #meters, window, "
        "options) or (label form, #appliances, dominant, named)")
ASSUMPTIONS = ["the correlation, dropout and energy-proportion entries and upstream shares are compared with the meters' own methods, "
               "whose values P30, P12 and P15 check"]
TECHNIQUE = "differential monitor: every entry of a description vs an independent recomputation"
NOTE = "Held on the descriptions observed; every entry and label is compared."
W = [("power", "active")]
MD = dict(building_type=["detached", "flat"], construction_year=[1935, 2001], energy_improvements=[["photovoltaics"]],
          heating=[["natural gas"]], ownership=["rented"], n_occupants=[4, 0], description_of_occupants=["two adults"])


def world(rng, nb, n=None):
    d = gen.Data("p34-%d" % rng.randrange(10 ** 9), rng.choice(["UTC", "Europe/London", "America/New_York"]))
    for b in rng.sample([1, 2, 3, 10], nb):
        model = "%s-%d" % (d.name, b)
        maxp = rng.choice([12, 30])
        d.devices[model] = gen.device(model, W, 6, maxp, None, None)
        idx = gen.rand_index(rng, n or rng.choice([12, 60]), period=6, tz=d.tz, gaps=rng.choice([0, 0.08]), maxgap=10,
                             start="2013-10-26 22:00")
        for i in range(1, rng.randrange(2, 5) + 1):
            df = pd.DataFrame(gen.rand_values(rng, len(idx), 1) + 0.125, index=idx, columns=gen.mi(W))
            if i > 1 and rng.chance(0.3):
                df = df[rng.np.random(len(df)) < 0.8]
            own = "%s-%d-%d" % (d.name, b, i) if i > 1 else model
            d.devices[own] = d.devices[model] if i == 1 else gen.device(own, W, rng.choice([6, 6, 3, 10]), maxp, None, None)
            d.meter(b, i, df, own, of=None if i == 1 else 1, site=i == 1)
            if i > 1:
                d.appliance(b, rng.choice(["fridge", "kettle", "light"]), i, [i])
        for site in rng.choice([[], [], [True], [False], [True, False]]):     # meters not in use
            d.meter(b, max(d.buildings[b]["meters"]) + 1, d.df(b, 1) * 2, model, of=None if site else 1, site=site, disabled=True)
        d.building(b)["md"].update({k: rng.choice(v) for k, v in MD.items() if rng.chance(0.5)})
    return d


def same(a, b):
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
        return isinstance(a, type(b)) and list(a) == list(b)
    if a is None or (isinstance(a, float) and np.isnan(a)):
        return b is None or (isinstance(b, float) and np.isnan(b))
    if isinstance(a, (int, float, np.number)):
        return isinstance(b, (int, float, np.number)) and not isinstance(b, bool) and float(a) == float(b)
    return type(a) is type(b) and a == b


def judge(mon, s, d, b, win, deep, el, tag):
    all_meters = d.buildings[b]["meters"]
    meters = sorted(i for i in all_meters if not all_meters[i]["md"].get("disabled"))
    model = d.devices[d.buildings[b]["meters"][1]["device"]]
    maxp = model["max_sample_period"]
    dfs = {i: d.df(b, i)[gen.in_frame(d.df(b, i).index, win)] for i in meters}
    mon.equal((int(s["total_n_meters"]), int(s["total_n_site_meters"])), (len(all_meters), sum(bool(x["site"]) for x in all_meters.values())), tag + ".counts")
    sp = [d.devices[all_meters[i]["device"]]["sample_period"] for i in meters]
    mon.equal((int(s["mains_sample_period"]), int(s["submeter_sample_period"])), (sp[0], max(sp[1:])), tag + ".sample_period")
    ext = [TimeFrame(d.df(b, i).index[0], d.df(b, i).index[-1]).intersection(win) for i in meters]
    starts, ends = [x.start for x in ext if not x.empty], [x.end for x in ext if not x.empty]
    empty = not starts
    if not empty:
        mon.equal(s["timeframe"], "start=%s, end=%s" % (min(starts), max(ends)), tag + ".timeframe", building=b)
        mon.equal(s["total_duration"], str(max(ends) - min(starts)), tag + ".duration")
    good = {}
    for i, tf in zip(meters, ext):
        tf.include_end = True
        good[i] = expected(d.df(b, i), win, [tf], maxp, None) if not tf.empty else []
    up = pd.Timedelta(sum(y - x for x, y in good[1]))
    mon.equal(pd.Timedelta(s["mains_uptime"]), up, tag + ".uptime", building=b)
    if not empty:
        mon.close(float(s["proportion_uptime"]), up / (max(ends) - min(starts)), tag + ".proportion_uptime")
    e = {i: energy_ref(x, maxp) for i, x in dfs.items()}
    av = s["average_mains_energy_per_day"]
    if up and len(dfs[1]):
        mon.close(float(av["active"]), e[1]["active"] / (up / pd.Timedelta("1D")), tag + ".average", rtol=1e-9)
    if deep:
        p = el.proportion_of_energy_submetered()
        mon.check(same(float(s["proportion_of_energy_submetered"]), float(p)), tag + ".submetered", answer=s["proportion_of_energy_submetered"])
        c = el.correlation_of_sum_of_submeters_with_mains()
        mon.check(same(float(s["correlation_of_sum_of_submeters_with_mains"]), float(c)), tag + ".correlation",
                  answer=s["correlation_of_sum_of_submeters_with_mains"])
        rates = np.array([el[i].dropout_rate() for i in meters], dtype=float)
        mon.equal(s["dropout_rates_ignoring_gaps"], "min=%s, mean=%s, max=%s" % (rates.min(), rates.mean(), rates.max()),
                  tag + ".dropout", building=b)
    else:
        mon.check("proportion_of_energy_submetered" not in s and "dropout_rates_ignoring_gaps" not in s, tag + ".cheap")
    mon.event("entries compared", len(s))


def w_describe(mon, rng):
    d = world(rng, rng.randrange(1, 4))
    kind = rng.choice(["hdf", "csv"]) if d.tz == "UTC" else "hdf"
    ds = d.open(kind)
    try:
        win = TimeFrame()
        how = rng.choice(["none", "part", "part", "void"]) if kind == "hdf" else "none"
        if how == "part":
            idx = d.df(next(iter(d.buildings)), 1).index
            a, b = sorted(rng.sample(range(len(idx)), 2))
            if b - a >= 3:
                win = TimeFrame(idx[a], idx[b])
                ds.store.window = win
        elif how == "void":
            at = pd.Timestamp(rng.choice(["2012-01-01", "2014-01-01"]), tz=d.tz)
            win = TimeFrame(at, at + pd.Timedelta("1D"))
            ds.store.window = win
        deep = rng.chance(0.6)
        for b in d.buildings:
            el = ds.buildings[b].elec
            judge(mon, el.describe(compute_expensive_stats=deep), d, b, win, deep, el, "group")
            s = ds.buildings[b].describe(compute_expensive_stats=deep)
            judge(mon, s, d, b, win, deep, el, "building")
            md = d.buildings[b]["md"]
            for k in MD:
                mon.check(same(s[k], md.get(k)), "building.metadata", key=k, answer=s[k], written=md.get(k))
            mon.equal(int(s["instance"]), b, "building.instance")
        t = ds.describe(compute_expensive_stats=deep)
        mon.equal(list(t.columns), sorted(d.buildings), "dataset.columns")
        for b in d.buildings:
            judge(mon, t[b], d, b, win, deep, ds.buildings[b].elec, "dataset")
        mon.state("describe", len(d.buildings), sum(len(x["meters"]) for x in d.buildings.values()), how, deep)
    finally:
        ds.store.close()


TYPES = ["fridge", "kettle", "light", "television", "unknown"]


def app_label(a, pretty):
    if pretty:
        out = a["type"].capitalize() + ("" if a["instance"] < 2 else " %d" % a["instance"])
    else:
        out = str((a["type"], a["instance"]))
    if a["type"] == "unknown":
        out += ", original name = %s" % a.get("original_name")
    return out


def w_labels(mon, rng):
    d = gen.Data("p34l-%d" % rng.randrange(10 ** 9), "UTC")
    model = d.name
    d.devices[model] = gen.device(model, W, 6, 30)
    df = gen.rand_frame_df(rng, 3, W, period=6, tz="UTC", gaps=0)
    plan = {}
    count = {}
    n = rng.randrange(2, 6)
    for i in range(1, n + 1):
        md = {}
        if rng.chance(0.3):
            md["name"] = rng.choice(["aggregate", "upstairs lights", "Z"])
        if rng.chance(0.3):
            md["room"] = rng.choice(["kitchen", "lounge"])
        site = i == 1
        d.meter(1, i, df, model, of=None if site else 1, site=site, **md)
        apps = []
        for _ in range(0 if site else rng.choice([0, 1, 1, 1, 2, 3])):
            t = rng.choice(TYPES)
            count[t] = count.get(t, 0) + 1
            a = dict(type=t, instance=count[t])
            if t == "unknown" and rng.chance(0.7):
                a["original_name"] = "mystery"
            apps.append(a)
        if len(apps) > 1 and rng.chance(0.7):
            rng.choice(apps)["dominant_appliance"] = True
        for a in apps:
            if rng.chance(0.25):
                a.setdefault("dominant_appliance", False)
        for a in apps:
            d.appliance(1, a["type"], a["instance"], [i], **{k: v for k, v in a.items() if k not in ("type", "instance")})
        plan[i] = (md, site, apps)
    ds = d.open()
    try:
        el = ds.buildings[1].elec
        labels = {}
        for i, (md, site, apps) in plan.items():
            m = el[i]
            dom = [a for a in apps if a.get("dominant_appliance")] or apps[:1]
            name = md.get("name") or ("Site meter" if site else dom[0]["type"] if dom else "")
            want = name[:1].upper() + name[1:]
            mon.equal(m.label(), want, "meter.pretty", meter=i, plan=plan[i])
            mon.equal(m.label(pretty=True), want, "meter.pretty")
            plain = ("SITE METER" if site else md["name"] if "name" in md else
                     ", ".join(app_label(a, False).upper() if a.get("dominant_appliance") else app_label(a, False) for a in apps))
            mon.equal(m.label(pretty=False), plain, "meter.plain", meter=i, plan=plan[i])
            labels[i] = (want, plain)
            for a in m.appliances:
                src = next(q for q in apps if (q["type"], q["instance"]) == tuple(a.identifier))
                for p in (True, False):
                    mon.equal(a.label(pretty=p), app_label(src, p), "appliance.label", source=src)
                mon.equal(repr(a), "Appliance(type='%s', instance=%d)" % (src["type"], src["instance"]), "appliance.repr")
            got_dom = m.dominant_appliance()
            mon.equal(tuple(got_dom.identifier) if got_dom else None, (dom[0]["type"], dom[0]["instance"]) if dom else None, "meter.dominant")
            r = "ElecMeter(instance=%d, building=1, dataset='%s'%s, appliances=%r%s)" % (
                i, d.name, ", site_meter" if site else "", m.appliances, ", room=" + md["room"] if "room" in md else "")
            mon.equal(repr(m), r, "meter.repr")
            mon.equal(m.name, md.get("name"), "meter.name")
            mon.event("labels compared", 4 + 3 * len(apps))
        ids = rng.sample(sorted(plan), rng.randrange(1, n + 1))
        g = MeterGroup([el[i] for i in ids])
        doms = [a for a in (el[i].dominant_appliance() for i in ids) if a is not None]
        if len(doms) > 1:
            mon.raises(RuntimeError, g.dominant_appliance, "group.dominant")
        else:
            mon.equal(g.dominant_appliance(), doms[0] if doms else None, "group.dominant", meters=ids)
        for p, q in ((True, 0), (False, 1)):
            got = g.label(pretty=p)
            want = sorted({labels[i][q] for i in ids})
            mon.equal(sorted(got.split(", ")), sorted(", ".join(want).split(", ")), "group.label", meters=ids)
            mon.equal(el.get_labels([el[i].identifier for i in ids], pretty=p), [labels[i][q] for i in ids], "group.get_labels")
        mon.equal(repr(g), "MeterGroup(meters=\n" + "\n".join("  " + repr(el[i]) for i in ids) + "\n)", "group.repr")
        h = MeterGroup([g, el[1]])
        mon.equal(repr(h), "MeterGroup(meters=\n  " + repr(g).replace("\n", "\n  ") + "\n  " + repr(el[1]) + "\n)", "group.repr_nested")
        mon.equal((g.instance(), g.building(), g.dataset()), (tuple(ids), 1, d.name), "group.identity")
        g.name = rng.choice(["top floor", "a"])
        mon.equal((g.label(), g.label(pretty=True)), (g.name, g.name[0].upper() + g.name[1:]), "group.named")
        m = el[ids[0]]
        m.name = "renamed meter"
        mon.equal((m.name, m.label()), ("renamed meter", "Renamed meter"), "meter.rename")
        words = [rng.choice(["kettle", "a", "Already", "élan", "1st"]) for _ in range(4)]
        mon.equal(utils.capitalise_index(words), [w[0].upper() + w[1:] for w in words], "capitalise")
        mon.state("labels", n, len(ids), tuple(len(v[2]) for v in plan.values()), tuple(sorted(count))[:2])
    finally:
        ds.store.close()


def w_shares(mon, rng):
    """proportion_of_upstream_total_per_meter and statistics called on all meters."""
    d = gen.Data("p34s-%d" % rng.randrange(10 ** 9), "UTC")
    model = d.name
    d.devices[model] = gen.device(model, W, 6, 30, None, None)
    n = rng.randrange(3, 7)
    up = {}
    for i in range(1, n + 1):
        up[i] = None if i == 1 else (1 if i == 2 or rng.chance(0.5) else rng.randrange(2, i))
        df = gen.rand_frame_df(rng, rng.choice([10, 60]), W, period=6, tz="UTC", gaps=0.05, maxgap=10, start="2013-06-07") + 0.125
        d.meter(1, i, df, model, of=up[i], site=i == 1)
    ds = d.open()
    try:
        el = ds.buildings[1].elec
        sub = el.submeters()
        if rng.chance(0.4):
            sub = MeterGroup(rng.sample(list(sub.meters), rng.randrange(1, len(sub.meters) + 1)))
        got = sub.proportion_of_upstream_total_per_meter()
        want = {i: float(el[i].proportion_of_upstream()) for i in (m.instance() for m in sub.meters)}
        mon.equal(sorted(k[0] for k in got.index), sorted(want), "upstream.meters")
        for k, v in got.items():
            close(mon, float(v), want[k[0]], "upstream.value", meter=k)
        mon.equal(list(got.values), sorted(got.values, reverse=True), "upstream.order")
        v = sub.call_method_on_all_meters("vampire_power")
        for m in sub.meters:
            mon.close(float(v[m.identifier]), float(d.df(1, m.instance()).values.min()), "all_meters.value")
        mon.equal(len(v), len(sub.meters), "all_meters.length")
        mon.event("shares compared", len(got))
        mon.state("shares", n, len(sub.meters), tuple(up.values()))
    finally:
        ds.store.close()


def w_rmse(mon, rng):
    """compute_rmse names each appliance once, apart when two share a name."""
    d = gen.Data("p34r-%d" % rng.randrange(10 ** 9), "UTC")
    model = d.name
    d.devices[model] = gen.device(model, W, 6, 30)
    df = gen.rand_frame_df(rng, 3, W, period=6, tz="UTC", gaps=0)
    n = rng.randrange(2, 6)
    types = {}
    for i in range(1, n + 1):
        d.meter(1, i, df, model, of=None if i == 1 else 1, site=i == 1)
        if i > 1:
            types[i] = rng.choice(["fridge", "kettle"])
            d.appliance(1, types[i], i, [i])
    ds = d.open()
    try:
        el = ds.buildings[1].elec
        ms = [el[i] for i in types]
        idx = df.index
        gt = pd.DataFrame(gen.rand_values(rng, 3, len(ms)), index=idx, columns=ms)
        pr = pd.DataFrame(gen.rand_values(rng, 3, len(ms)), index=idx, columns=ms)
        for pretty in (True, False):
            got = utils.compute_rmse(gt, pr, pretty)
            mon.equal(len(got), len(ms), "rmse.entries", "one entry per appliance", answer=dict(got))
            for j, m in enumerate(ms):
                val = float(np.sqrt(((gt.values[:, j] - pr.values[:, j]) ** 2).mean()))
                t = m.label()
                twin = list(types.values()).count(types[m.instance()]) > 1
                key = (t if not twin else "%s (%d, %d)" % (t, 1, m.instance())) if pretty else m
                mon.check(key in list(got.index) if pretty else True, "rmse.label", key=key, answer=list(got.index))
                if pretty:
                    mon.close(float(got[key]), val, "rmse.value")
                else:
                    mon.check(any(abs(float(x) - val) < 1e-9 for x in got.values), "rmse.value")
        mon.event("errors compared", 2 * len(ms))
        mon.state("rmse", tuple(types.values()))
    finally:
        ds.store.close()
