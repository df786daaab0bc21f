"""P17: metadata becomes the right buildings, meters, appliances and wiring."""
import copy

import numpy as np
import pandas as pd

import nilmtk
from checks import gen
from nilmtk.elecmeter import ElecMeter, ElecMeterID
from nilmtk.metergroup import MeterGroup

WORKLOADS = [("dataset", 120, 1500), ("wiring", 100, 1200), ("reopen", 40, 500), ("mains", 60, 700)]
RULE = ("random datasets (1-12 buildings, nested wiring, two or alternative mains, appliances on one to three meters, several "
        "appliances per meter, disabled meters, several devices) are opened, also next to each other and again after closing; "
        "buildings, meters, appliances, devices, extents, upstream meters, wiring graphs and mains are compared with the "
        "metadata written; distinct = (store, #buildings, #meters, #mains, groups, disabled, depth)")
ASSUMPTIONS = ["meters of multi-meter appliances measure only that appliance (documented)", "device names are unique across datasets (the table is global)"]
TECHNIQUE = "model-based monitor: object graph built from metadata vs the metadata written"
NOTE = "Held on the datasets observed; every meter, appliance and wire is compared."
W = [("power", "active")]
TYPES = ["fridge", "kettle", "microwave", "dish washer", "light", "television", "computer", "washing machine"]


class Plan(object):
    """A random dataset and what opening it must produce."""

    def __init__(self, rng, nb=None, groups=True, disabled=True, name=None, rows=6, zero=None, zero_app=0):
        self.tz = rng.choice(["UTC", "Europe/London"])
        d = self.d = gen.Data(name or "p17-%d" % rng.randrange(10 ** 9), self.tz)
        self.b = {}
        nb = nb or rng.choice([1, 1, 2, 3, 12])
        ids = rng.sample(range(1, 15), nb) if rng.chance(0.5) else list(range(1, nb + 1))
        if rng.chance(0.15):                    # house numbers of large surveys
            ids = rng.sample([1, 2, 10, 26, 99, 100, 114, 1017, 9982, 11], min(nb, 10))
        for k in range(rng.randrange(1, 3)):
            m = "%s-dev%d" % (d.name, k)
            d.devices[m] = gen.device(m, W, rng.choice([1, 6, 60]), rng.choice([60, 120]), None, None)
            d.devices[m]["tags"] = rng.sample(["a", "b", "c"], rng.randrange(1, 4))
        for b in ids:
            n = rng.randrange(2, 8) if nb < 6 else 2
            inst = sorted(rng.sample(range(1, 30), n)) if rng.chance(0.3) else list(range(1, n + 1))
            nm = 2 if (n > 3 and rng.chance(0.3)) else 1
            alt = 1 if (disabled and n > nm + 2 and rng.chance(0.4)) else 0
            P = dict(meters={}, apps=[], groups=[])
            subs = []
            use0 = nm == 2 or (rng.chance(0.3) if zero is None else zero)
            for j, i in enumerate(inst):
                site = j < nm + alt
                dis = nm <= j < nm + alt or (disabled and not site and j == n - 1 and n > 4 and rng.chance(0.3))
                of = None
                if not site:
                    of = 0 if use0 else inst[0]
                    if subs and rng.chance(0.4):
                        of = rng.choice(subs)
                md = {}
                if dis:
                    md["disabled"] = True
                if rng.chance(0.3):
                    md["room"] = rng.choice(["kitchen", "lounge"])
                if rng.chance(0.15):
                    md["name"] = "my meter %d" % i
                dev = rng.choice(sorted(d.devices))
                start = rng.randrange(0, 300)
                idx = pd.date_range("2013-05-05", periods=rng.randrange(2, rows + 2), freq="6s", tz=self.tz) + pd.Timedelta(seconds=start)
                df = pd.DataFrame(rng.np.integers(0, 500, (len(idx), 1)).astype(float), index=idx, columns=gen.mi(W))
                d.meter(b, i, df, dev, of=of, site=site, **md)
                P["meters"][i] = dict(site=site, of=of, disabled=dis, device=dev, md=md, apps=[], df=df)
                if not site and not dis:
                    subs.append(i)
            free = list(subs)
            cnt = {}

            def add(meters, **md):
                t = rng.choice(TYPES)
                cnt[t] = cnt.get(t, 0) + 1
                d.appliance(b, t, cnt[t], meters, **md)
                P["apps"].append((t, cnt[t], list(meters), md))
                for x in (inst[:nm] if meters == [0] else meters):
                    P["meters"][x]["apps"].append((t, cnt[t]))
                return (t, cnt[t])
            if groups and len(free) >= 3 and rng.chance(0.5):
                g = rng.sample(free, rng.choice([2, 2, 3]))
                free = [x for x in free if x not in g]
                add(g)
                P["groups"].append(g)
            for x in free:
                for q in range(rng.choice([0, 1, 1, 1, 2, 3])):
                    md = {"dominant_appliance": False} if rng.chance(0.2) else {}
                    if q and rng.chance(0.5) and not P["meters"][x].get("dom"):
                        md["dominant_appliance"] = True
                    a = add([x], **md)
                    if md.get("dominant_appliance"):
                        P["meters"][x]["dom"] = a
            if not alt and rng.chance(zero_app):
                # measured by the mains, whichever these are
                add([0])
            rng.shuffle(d.buildings[b]["appliances"])
            mains = [i for i in inst[:nm]]
            P["apps"] = [(a["type"], a["instance"], mains if a["meters"] == [0] else a["meters"], {}) for a in d.buildings[b]["appliances"]]
            d.buildings[b]["md"] = {"n_occupants": rng.randrange(1, 6)}
            self.b[b] = P

    def mid(self, b, i):
        return ElecMeterID(i, b, self.d.name)

    def mains(self, b):
        P = self.b[b]
        return [i for i in P["meters"] if P["meters"][i]["site"] and not P["meters"][i]["disabled"]]

    def upstream(self, b, i):
        m = self.b[b]["meters"][i]
        if m["site"]:
            return None
        return set(self.mains(b)) if m["of"] == 0 else {m["of"]}

    def grouped(self, b):
        return {i for g in self.b[b]["groups"] for i in g}


def flat(m):
    """Identifiers of a meter or group."""
    if m is None:
        return None
    if isinstance(m, MeterGroup):
        out = set()
        for x in m.meters:
            out |= flat(x)
        return out
    return {m.identifier}


def check_building(mon, plan, el, b, tag):
    P = plan.b[b]
    grouped = plan.grouped(b)
    singles = {i for i in P["meters"] if i not in grouped and not P["meters"][i]["disabled"]}
    got = [m for m in el.meters if isinstance(m, ElecMeter)]
    mon.equal(sorted(m.instance() for m in got), sorted(singles), tag + ".meters", "top-level meters", building=b)
    mon.equal(sorted(tuple(sorted(g.instance())) for g in el.nested_metergroups()), sorted(tuple(sorted(g)) for g in P["groups"]), tag + ".groups")
    mon.equal(sorted(m.instance() for m in el.disabled_meters), sorted(i for i in P["meters"] if P["meters"][i]["disabled"]), tag + ".disabled")
    mon.equal(sorted(x.instance() if isinstance(x.instance(), int) else min(x.instance()) for x in el.all_meters()),
              sorted(list(singles) + [i for i in P["meters"] if P["meters"][i]["disabled"]] + [min(g) for g in P["groups"]]), tag + ".all_meters")
    flatm = {}
    for m in el.meters + el.disabled_meters:
        for x in (m.meters if isinstance(m, MeterGroup) else [m]):
            flatm[x.instance()] = x
    for i, p in P["meters"].items():
        m = flatm[i]
        mon.equal(tuple(m.identifier), (i, b, plan.d.name), tag + ".identifier")
        mon.equal((m.instance(), m.building(), m.dataset()), (i, b, plan.d.name), tag + ".identity")
        mon.equal(m.key, plan.d.key(b, i), tag + ".key")
        mon.equal(bool(m.is_site_meter()), p["site"], tag + ".site")
        dev = plan.d.devices[p["device"]]
        mon.equal(m.device, dev, tag + ".device")
        mon.equal(m.sample_period(), dev["sample_period"], tag + ".sample_period")
        mon.equal(sorted((a.identifier.type, a.identifier.instance) for a in m.appliances), sorted(p["apps"]), tag + ".appliances", "appliances of the meter", meter=i)
        order = [(t, k) for t, k, ms, md in P["apps"] if i in ms]
        dom = p.get("dom") or (order[0] if order else None)
        a = m.dominant_appliance()
        mon.equal(None if a is None else tuple(a.identifier), dom, tag + ".dominant")
        for k, v in p["md"].items():
            mon.equal(m.metadata.get(k), v, tag + ".metadata")
        tf = m.get_timeframe()
        mon.equal((tf.start, tf.end), (p["df"].index[0], p["df"].index[-1]), tag + ".extent")
        label = p["md"].get("name") or ("Site meter" if p["site"] else (dom[0] if dom else ""))
        if label:
            mon.equal(m.label(), label[0].upper() + label[1:], tag + ".label")
        if not p["disabled"]:
            mon.equal(flat(m.upstream_meter(raise_warning=False)), None if p["site"] else {plan.mid(b, q) for q in plan.upstream(b, i)}, tag + ".upstream",
                      "upstream meter", meter=i)
        mon.event("meters compared")
    for g in el.nested_metergroups():
        want = [a for a in P["apps"] if sorted(a[2]) == sorted(g.instance())][0]
        mon.equal(sorted((a.identifier.type, a.identifier.instance) for a in g.appliances), [(want[0], want[1])], tag + ".group_appliance")
    apps = {(t, k) for t, k, ms, md in P["apps"] if not all(P["meters"][x]["disabled"] for x in ms)}
    mon.equal({tuple(a.identifier) for a in el.appliances}, apps, tag + ".all_appliances")
    mon.equal((el.building(), el.dataset()), (b, plan.d.name), tag + ".group_identity")
    mains = plan.mains(b)
    mon.equal(flat(el.mains()), {plan.mid(b, i) for i in mains}, tag + ".mains")
    mon.equal(isinstance(el.mains(), ElecMeter), len(mains) == 1, tag + ".mains_type")
    mon.equal({x for m in el.submeters().meters for x in flat(m)},
              {plan.mid(b, i) for i in P["meters"] if not P["meters"][i]["site"] and not P["meters"][i]["disabled"]}, tag + ".submeters")
    live = [i for i in P["meters"] if not P["meters"][i]["disabled"]]
    tf = el.get_timeframe()
    mon.equal((tf.start, tf.end), (min(P["meters"][i]["df"].index[0] for i in live), max(P["meters"][i]["df"].index[-1] for i in live)), tag + ".group_extent")
    mon.equal(el.sample_period(), max(plan.d.devices[P["meters"][i]["device"]]["sample_period"] for i in live), tag + ".group_period")


def w_dataset(mon, rng):
    plan = Plan(rng, zero_app=0.3)
    kind = rng.choice(["hdf", "hdf", "csv"])
    ds = plan.d.open(kind)
    try:
        mon.equal(sorted(ds.buildings), sorted(plan.b), "dataset.buildings")
        mon.equal(ds.metadata["name"], plan.d.name, "dataset.name")
        for b in plan.b:
            B = ds.buildings[b]
            mon.equal(tuple(B.identifier), (b, plan.d.name), "dataset.building_id")
            mon.equal(B.elec.building(), b, "dataset.elec_building")
            mon.equal(B.metadata["n_occupants"], plan.d.buildings[b]["md"]["n_occupants"], "dataset.building_metadata")
            check_building(mon, plan, B.elec, b, "dataset")
        mon.equal(len(ds.elecs()), len(plan.b), "dataset.elecs")
        # opening leaves the stored metadata as it was
        mon.equal(ds.store.load_metadata("/building%d" % min(plan.b)), copy.deepcopy(plan.d.building_metadata(min(plan.b))), "dataset.metadata_unchanged")
        if rng.chance(0.2):                     # a building that names the data set it was taken from keeps that name
            own = Plan(rng, nb=1, disabled=False)
            b, P = next(iter(own.b.items()))
            own.d.buildings[b]["md"]["dataset"] = "src-" + own.d.name
            other = own.d.open()
            try:
                B = other.buildings[b]
                mon.equal(tuple(B.identifier), (b, "src-" + own.d.name), "own_name.building")
                mon.equal({m.identifier for m in B.elec.all_meters() if isinstance(m, ElecMeter)} | {q.identifier for g in B.elec.all_meters() if isinstance(g, MeterGroup) for q in g.meters},
                          {ElecMeterID(i, b, "src-" + own.d.name) for i in P["meters"]}, "own_name.meters")
                mon.equal(other.metadata["name"], own.d.name, "own_name.dataset")
            finally:
                other.store.close()
        mon.state("dataset", kind, len(plan.b), sum(len(P["meters"]) for P in plan.b.values()), sum(len(P["groups"]) for P in plan.b.values()))
    finally:
        ds.store.close()


def wires(plan, b):
    out = set()
    for i, p in plan.b[b]["meters"].items():
        if not p["disabled"] and not p["site"]:
            out.add((frozenset(plan.mid(b, q) for q in plan.upstream(b, i)), plan.mid(b, i)))
    return out


def w_wiring(mon, rng):
    plan = Plan(rng, nb=1)
    b = next(iter(plan.b))
    P = plan.b[b]
    ds = plan.d.open()
    try:
        el = ds.buildings[b].elec
        g = el.wiring_graph()
        want = wires(plan, b)
        got = {(frozenset(flat(u)), next(iter(flat(v)))) for u, v in g.edges()}
        mon.equal(got, want, "wiring.edges", "wires of the graph")
        mon.equal(g.number_of_edges(), len(want), "wiring.edge_count", "duplicated nodes or wires")
        nodes = {frozenset(flat(x)) for x in g.nodes()}
        mon.equal(len(nodes), g.number_of_nodes(), "wiring.nodes", "one node per meter")
        if want:
            roots = {u for u, _ in want} - {frozenset([v]) for _, v in want}
            if len(roots) == 1:
                down = {v for u, v in want if u in roots}
                mon.equal({x for m in el.meters_directly_downstream_of_mains().meters for x in flat(m)}, down, "wiring.downstream")
                mon.equal(frozenset(flat(nilmtk.utils.tree_root(g))), next(iter(roots)), "wiring.root")
        for m in el.nested_metergroups():
            ups = {frozenset(plan.upstream(b, i)) for i in m.instance()}
            if len(ups) == 1:
                mon.equal(flat(m.upstream_meter()), {plan.mid(b, q) for q in next(iter(ups))}, "wiring.group_upstream")
            else:
                mon.raises(RuntimeError, lambda: m.upstream_meter(), "wiring.group_several")
        mon.event("wires compared", len(want))
        depth = 0
        for i in P["meters"]:
            k, j = 0, i
            while P["meters"][j]["of"]:
                j, k = P["meters"][j]["of"], k + 1
            depth = max(depth, k)
        mon.state("wiring", len(P["meters"]), len(plan.mains(b)), depth, bool(P["groups"]), len(want))
    finally:
        ds.store.close()


def w_reopen(mon, rng):
    """Several datasets open at once, and the same one opened again."""
    plans = [Plan(rng, nb=rng.choice([1, 2])) for _ in range(rng.randrange(1, 4))]
    paths = [gen.scratch(".h5") for _ in plans]
    open_ = [p.d.open(path=q) for p, q in zip(plans, paths)]
    try:
        for _ in range(rng.randrange(1, 4)):
            k = rng.randrange(len(plans))
            if rng.chance(0.5):
                open_[k].store.close()
                open_[k] = nilmtk.DataSet(paths[k])
            for p, ds in zip(plans, open_):
                for b in p.b:
                    check_building(mon, p, ds.buildings[b].elec, b, "reopen")
                    for m in ds.buildings[b].elec.submeters().meters:
                        for x in (m.meters if isinstance(m, MeterGroup) else [m]):
                            u = x.upstream_meter(raise_warning=False)
                            for y in (u.meters if isinstance(u, MeterGroup) else [u]):
                                # it must be readable: the meter of an open store
                                df = next(y.load())
                                mon.equal(float(df.iloc[0, 0]), float(p.b[b]["meters"][y.instance()]["df"].iloc[0, 0]), "reopen.readable")
        # one graph over all of them: instance numbers repeat, meters do not
        every, want = [], set()
        for p, ds in zip(plans, open_):
            for b in p.b:
                every += ds.buildings[b].elec.meters
                want |= wires(p, b)
        rng.shuffle(every)
        g = MeterGroup(every).wiring_graph()
        mon.equal({(frozenset(flat(u)), next(iter(flat(v)))) for u, v in g.edges()}, want, "reopen.wires", "wires over several datasets")
        mon.equal(g.number_of_edges(), len(want), "reopen.edge_count")
        mon.event("wires compared over datasets", len(want))
        mon.state("reopen", len(plans), sum(len(p.b) for p in plans))
    finally:
        for ds in open_:
            ds.store.close()


def w_mains(mon, rng):
    """Alternative mains and groups over several buildings."""
    plan = Plan(rng, nb=rng.choice([1, 2]))
    ds = plan.d.open()
    try:
        for b in plan.b:
            el = ds.buildings[b].elec
            P = plan.b[b]
            alt = [i for i in P["meters"] if P["meters"][i]["site"] and P["meters"][i]["disabled"]]
            before = ([m.instance() for m in el.meters], [m.instance() for m in el.disabled_meters])
            if not alt:
                mon.raises(RuntimeError, lambda: el.use_alternative_mains(), "mains.none")
                mon.equal(([m.instance() for m in el.meters], [m.instance() for m in el.disabled_meters]), before, "mains.untouched")
                continue
            el.use_alternative_mains()
            mon.equal(flat(el.mains()), {plan.mid(b, i) for i in alt}, "mains.swapped")
            mon.equal({i for m in el.disabled_meters for i in [m.instance()]} & set(plan.mains(b)), set(plan.mains(b)), "mains.disabled")
            mon.equal(len(el.all_meters()), len(before[0]) + len(before[1]), "mains.conserved")
            el.use_alternative_mains()
            mon.equal(flat(el.mains()), {plan.mid(b, i) for i in plan.mains(b)}, "mains.back")
            mon.equal((sorted(map(str, (m.instance() for m in el.meters))), sorted(map(str, (m.instance() for m in el.disabled_meters)))),
                      (sorted(map(str, before[0])), sorted(map(str, before[1]))), "mains.same")
            mon.event("mains swapped")
        bs = list(plan.b)
        if len(bs) == 2:
            u = ds.buildings[bs[0]].elec.union(ds.buildings[bs[1]].elec)
            mon.equal(u.contains_meters_from_multiple_buildings(), True, "mains.multiple")
            mon.raises(RuntimeError, lambda: u.mains(), "mains.ambiguous")
            mon.equal(set(u.building()), set(bs), "mains.buildings")
            mon.equal(sorted(str(m.identifier) for m in u.meters), sorted(str(m.identifier) for b in bs for m in ds.buildings[b].elec.meters),
                      "mains.union", "the union of two buildings does not have exactly their meters in use")
        mon.event("buildings judged", len(bs))
        mon.state("mains", len(bs), sum(len(plan.mains(b)) for b in bs))
    finally:
        ds.store.close()
