"""P18: finding, matching, selecting and grouping meters."""
import copy
import warnings

import pandas as pd

from checks import gen
from checks.p17 import Plan, flat
from nilmtk.appliance import Appliance
from nilmtk.elecmeter import ElecMeter, ElecMeterID
from nilmtk.metergroup import MeterGroup, MeterGroupID

WORKLOADS = [("getitem", 80, 1000), ("select", 120, 1500), ("groups", 80, 1000), ("town", 20, 300), ("appliance", 150, 2000)]
RULE = ("random buildings (shared meters, nested groups, synonyms, rooms, custom metadata) are searched with every key form and "
        "random criteria; found meters and raised errors are compared with a plain search over the metadata written; set "
        "operations, equality, hashing, grouping and lists of ids are checked the same way; distinct = (query form, #hits, nested)")
ASSUMPTIONS = ["appliance types are those of the stand-in nilm_metadata"]
TECHNIQUE = "model-based monitor: answers of the query methods vs a plain search over the metadata written"
NOTE = "Held on the queries observed; every answer is compared."
TYPES = ["fridge", "kettle", "microwave", "dish washer", "light", "television", "computer", "washing machine"]
SYN = {"refrigerator": "fridge", "dishwasher": "dish washer", "lamp": "light", "TV": "television", "PC": "computer"}


def types():
    Appliance({"type": "fridge", "instance": 1})
    return Appliance.appliance_types


def cats(t):
    out = []
    for v in types()[t]["categories"].values():
        out += v if isinstance(v, list) else [v]
    return out


def app_matches(a, key, synonyms=True):
    """Documented meaning for an appliance dict; KeyError for unknown keys."""
    ok = True
    T = types()[a["type"]]
    for k, v in key.items():
        if k == "type":
            names = [a["type"]] + (T.get("synonyms", []) if synonyms else [])
            ok = ok and v in names
        elif k == "instance":
            ok = ok and a["instance"] == v
        elif k in a:
            ok = ok and a[k] == v
        elif k == "category":
            ok = ok and v in cats(a["type"])
        elif k in T:
            w = T[k]
            ok = ok and ((v in w) if isinstance(w, list) and not isinstance(v, list) else w == v)
        else:
            raise KeyError(k)
    return ok


def rand_key(rng, apps):
    key = {}
    for k in rng.sample(["type", "instance", "category", "room", "control", "n", "count", "building", "size"], rng.choice([1, 1, 2, 3])):
        if k == "type":
            key[k] = rng.choice(TYPES + list(SYN))
        elif k == "instance":
            key[k] = rng.choice([1, 1, 2, 3])
        elif k == "category":
            key[k] = rng.choice(["cold", "cooking", "large", "small", "ICT", "SMPS", "nonsense"])
        elif k == "room":
            key[k] = rng.choice(["kitchen", "lounge", ["kitchen"]])
        elif k == "control":
            key[k] = rng.choice(["manual", "motion", ["manual"]])
        elif k == "building":
            key[k] = rng.choice([1, 2])
        elif k in ("n", "count"):
            key[k] = rng.choice([1, 2])
    return key or {"type": "fridge"}


def w_appliance(mon, rng):
    types()
    t = rng.choice(TYPES)
    md = {"type": t, "instance": rng.randrange(1, 4), "meters": [1], "building": rng.choice([1, 2]), "dataset": "x"}
    for k in ("room", "n", "count", "on_power_threshold"):
        if rng.chance(0.4):
            md[k] = rng.choice(["kitchen", "lounge"]) if k == "room" else rng.choice([1, 2])
    if rng.chance(0.2):
        md["nominal_consumption"] = {"on_power": rng.choice([77, 5])}
    a = Appliance(copy.deepcopy(md))
    syn = rng.chance(0.8)
    Appliance.allow_synonyms = syn
    try:
        for _ in range(6):
            key = rand_key(rng, None)
            keep = copy.deepcopy(key)
            try:
                want = app_matches(md, key, syn)
            except KeyError:
                # an unknown key is an error wherever it stands
                mon.raises(KeyError, lambda: a.matches(key), "appliance.unknown_key")
                continue
            mon.equal(bool(a.matches(key)), want, "appliance.matches", "match differs", key=str(key), appliance=str(md), synonyms=syn)
            mon.equal(key, keep, "appliance.key_changed")
            mon.event("matches decided")
            mon.state("match", tuple(sorted(key)), want, syn)
        mon.equal(a.matches({}), True, "appliance.empty_key")
        mon.raises(TypeError, lambda: a.matches(["type"]), "appliance.key_type")
        mon.equal(tuple(a.identifier), (t, md["instance"]), "appliance.identifier")
        thr = md.get("on_power_threshold", md.get("nominal_consumption", {}).get("on_power", types()[t].get("on_power_threshold", 10)))
        mon.equal(a.on_power_threshold(), thr, "appliance.threshold")
        mon.equal(sorted(a.categories()), sorted(cats(t)), "appliance.categories")
        lab = t.capitalize() + ("" if md["instance"] == 1 else " %d" % md["instance"])
        mon.equal(a.label(pretty=True), lab, "appliance.label")
        mon.equal(a.n_meters, 1, "appliance.n_meters")
        b = Appliance(dict(md, room="elsewhere"))
        mon.equal((a == b, hash(a) == hash(b), a != b), (True, True, False), "appliance.equality")
        c = Appliance(dict(md, instance=md["instance"] + 1))
        mon.equal((a == c, a != c, a == "x"), (False, True, False), "appliance.inequality")
        a.type["categories"]["size"] = "changed"
        mon.check("changed" not in Appliance(dict(md)).categories(), "appliance.type_shared", "the type dictionary is handed out uncopied")
    finally:
        Appliance.allow_synonyms = True


class World(object):
    def __init__(self, rng, nb=1, **kw):
        self.plan = Plan(rng, nb=nb, **kw)
        self.ds = self.plan.d.open()
        self.name = self.plan.d.name

    def apps(self, b, m):
        """Appliance dictionaries of a (possibly nested) meter."""
        ids = {x.instance for x in flat(m)}
        out = []
        for a in self.plan.d.buildings[b]["appliances"]:
            if ids & set(a["meters"]):
                out.append(dict(a, building=b, dataset=self.name))
        return out

    def close(self):
        self.ds.store.close()


def ids_of(meters):
    return [frozenset(flat(m)) for m in meters]


def w_getitem(mon, rng):
    w = World(rng, disabled=False)
    try:
        b = next(iter(w.plan.b))
        el = w.ds.buildings[b].elec
        P = w.plan.b[b]
        grouped = w.plan.grouped(b)
        for i in P["meters"]:
            mon.equal(flat(el[i]), {w.plan.mid(b, i)}, "getitem.int")
            mon.check(isinstance(el[i], ElecMeter), "getitem.int_type")
            if i not in grouped:
                mon.equal(flat(el[w.plan.mid(b, i)]), {w.plan.mid(b, i)}, "getitem.id")
                mon.equal(flat(el[(i, b, w.name)]), {w.plan.mid(b, i)}, "getitem.tuple")
            else:
                mon.raises(KeyError, lambda: el[w.plan.mid(b, i)], "getitem.id_nested")
            mon.event("lookups", 3)
        mon.raises(KeyError, lambda: el[99], "getitem.int_missing")
        mon.raises(KeyError, lambda: el[ElecMeterID(1, b + 50, w.name)], "getitem.id_building") if True else None
        mon.raises(KeyError, lambda: el[ElecMeterID(min(P["meters"]), b, "other")], "getitem.id_dataset")
        mon.raises(TypeError, lambda: el[1.5], "getitem.type")
        mon.raises(TypeError, lambda: el[True], "getitem.bool")
        mon.equal(flat(el[ElecMeterID(0, b, w.name)]), {w.plan.mid(b, i) for i in w.plan.mains(b)}, "getitem.zero")
        for g in P["groups"]:
            ids = [w.plan.mid(b, i) for i in g]
            for _ in (0, 1):
                rng.shuffle(ids)
                for key in (list(ids), MeterGroupID(meters=tuple(ids)), ElecMeterID(tuple(x.instance for x in ids), b, w.name)):
                    m = el[key]
                    mon.equal((isinstance(m, MeterGroup), flat(m)), (True, set(ids)), "getitem.group", "existing group", key=str(key))
            mon.raises(KeyError, lambda: el[ids[:-1]], "getitem.group_subset")
            more = ids + [w.plan.mid(b, i) for i in P["meters"] if i not in g][:1]
            if len(more) > len(ids):
                rng.shuffle(more)
                mon.raises(KeyError, lambda: el[list(more)], "getitem.group_superset")
                mon.raises(KeyError, lambda: el[MeterGroupID(meters=tuple(more))], "getitem.group_superset")
            mon.raises(KeyError, lambda: el[MeterGroupID(meters=tuple(ids[:-1]))], "getitem.group_subset")
        free = [i for i in P["meters"] if i not in grouped]
        if len(free) > 1:
            two = rng.sample(free, 2)
            mon.equal([x.instance() for x in el[tuple(two)].meters], two, "getitem.pair")
        for t in TYPES + list(SYN):
            for inst in (None, 1, 2, 3):
                hits = [m for m in el.meters if any(app_matches(a, {"type": t, "instance": inst or 1}) for a in w.apps(b, m))]
                key = t if inst is None else (t, inst)
                if len(hits) == 1:
                    m = el[key]
                    mon.equal(flat(m), flat(hits[0]), "getitem.appliance", "meter of the appliance", key=str(key))
                    mon.equal(flat(el[{"type": t, "instance": inst or 1, "building": b, "dataset": w.name}]), flat(hits[0]), "getitem.dict")
                elif not hits:
                    mon.raises(KeyError, lambda: el[key], "getitem.no_appliance")
                else:
                    mon.raises(Exception, lambda: el[key], "getitem.ambiguous")
                mon.state("appliance", inst, len(hits), bool(grouped))
        mon.equal(tuple(el.identifier.meters), tuple(m.identifier for m in el.meters), "getitem.identifier")
        if free:
            lab = el.get_labels([w.plan.mid(b, i) for i in free])
            mon.equal(lab, [el[i].label(pretty=True) for i in free], "getitem.labels")
    finally:
        w.close()


def w_select(mon, rng):
    w = World(rng, nb=rng.choice([1, 2]))
    try:
        bs = list(w.plan.b)
        el = w.ds.buildings[bs[0]].elec
        if len(bs) == 2 and rng.chance(0.5):
            el = el.union(w.ds.buildings[bs[1]].elec)
        before = ids_of(el.meters)

        def of(m):
            return next(iter(flat(m))).building
        for _ in range(5):
            if rng.chance(0.6):
                key = rand_key(rng, None)
                if rng.chance(0.4):
                    k = rng.choice(["type", "category", "instance"])
                    key = {k: [rand_key1(rng, k) for _ in range(rng.randrange(1, 4))]}
                call = lambda: el.select_using_appliances(**copy.deepcopy(key))

                def hit(m, q):
                    # the code stops at the first matching appliance; unknown keys only matter before it
                    for a in order(m, w.apps(of(m), m)):
                        if app_matches(a, q):
                            return True
                    return False
            else:
                k = rng.choice(["instance", "building", "sample_period", "room", "device_model", "site_meter", "model", "tags"])
                vals = {"instance": [1, 2, 5, 99], "building": bs + [77], "sample_period": [1, 6, 60], "room": ["kitchen", "lounge"],
                        "device_model": sorted(w.plan.d.devices), "site_meter": [True], "model": sorted(w.plan.d.devices), "tags": ["a", "b", "c"]}[k]
                key = {k: rng.choice(vals)}
                if rng.chance(0.3):
                    key = {k: rng.sample(vals, rng.randrange(1, min(3, len(vals)) + 1))}
                elif rng.chance(0.4):
                    key["building"] = rng.choice(bs)
                    if rng.chance(0.5):
                        key = {"building": rng.choice(bs + [77]), k: key[k]} if k != "building" else key
                call = lambda: el.select(**copy.deepcopy(key))

                def hit(m, q):
                    for x in (m.meters if isinstance(m, MeterGroup) else [m]):
                        if meter_hit(w, of(x), x.instance(), q):
                            return True
                    return False
            vals = [{next(iter(key)): v} for v in next(iter(key.values()))] if len(key) == 1 and isinstance(next(iter(key.values())), list) else [key]
            want, miss = [], False
            for q in vals:
                here = []
                for m in el.meters:
                    try:
                        if hit(m, q):
                            here.append(m)
                    except KeyError:
                        pass
                miss = miss or not here
                for m in here:
                    if frozenset(flat(m)) not in ids_of(want):
                        want.append(m)
            if miss:
                mon.raises(KeyError, call, "select.none", key=str(key)) if False else mon.raises(KeyError, call, "select.none")
            else:
                got = call()
                mon.equal(len(ids_of(got.meters)), len(set(ids_of(got.meters))), "select.duplicates", "a meter was selected twice", key=str(key))
                mon.equal(set(ids_of(got.meters)), set(ids_of(want)), "select.meters", "selected meters", key=str(key))
            mon.equal(ids_of(el.meters), before, "select.changed", "selecting changed the group")
            mon.event("selections judged")
            mon.state("select", tuple(sorted(key)), len(want), miss, len(bs))
    finally:
        w.close()


def w_town(mon, rng):
    """Groups holding meters with the same instance from several buildings and data sets."""
    worlds, cells = [], []
    n = rng.randrange(4, 8)
    for _ in range(rng.choice([1, 2])):
        d = gen.Data("p18t-%d" % rng.randrange(10 ** 9), "UTC")
        d.devices[d.name + "dev"] = gen.device(d.name + "dev", [("power", "active")], 6, 60, None, None)
        idx = pd.date_range("2013-05-05", periods=3, freq="6s", tz="UTC")
        nb = rng.randrange(1 if worlds else 2, 4)
        for b in range(1, nb + 1):
            for i in range(1, n + 1):
                df = pd.DataFrame(rng.np.integers(0, 500, (3, 1)).astype(float), index=idx, columns=gen.mi([("power", "active")]))
                d.meter(b, i, df, d.name + "dev", of=None if i == 1 else 1, site=i == 1)
            d.appliance(b, rng.choice(TYPES), 1, [2])
            cells.append((len(worlds), b))
        worlds.append(d)
    dss = [d.open() for d in worlds]
    try:
        mid = lambda c, i: ElecMeterID(i, c[1], worlds[c[0]].name)
        meter = lambda c, i: dss[c[0]].buildings[c[1]].elec[i]
        every = [(c, i) for c in cells for i in range(1, n + 1)]
        # unions keep meters of other buildings and data sets apart
        a, b = ([x for x in every if rng.chance(0.6)] for _ in (0, 1))
        ga, gb = (MeterGroup([meter(*x) for x in g]) for g in (a, b))
        u = ga.union(gb)
        mon.equal(sorted(m.identifier for m in u.meters), sorted({mid(*x) for x in a + b}), "town.union")
        mon.equal(ga == gb, set(a) == set(b), "town.equality")
        total = MeterGroup()
        for c in cells:
            total = total.union(dss[c[0]].buildings[c[1]].elec)
        mon.equal(sorted(m.identifier for m in total.meters), sorted(mid(*x) for x in every), "town.union_all")
        for c, i in rng.sample(every, 6):
            mon.equal(total[mid(c, i)].identifier, mid(c, i), "town.id")
            mon.equal(total[tuple(mid(c, i))].identifier, mid(c, i), "town.tuple")
        for c in cells:
            mon.equal(flat(total[ElecMeterID(0, c[1], worlds[c[0]].name)]), {mid(c, 1)}, "town.mains")
            got = total.select(building=c[1], dataset=worlds[c[0]].name)
            mon.equal(sorted(m.identifier for m in got.meters), [mid(c, i) for i in range(1, n + 1)], "town.select")
            mon.raises(KeyError, lambda: total[ElecMeterID(n + 1, c[1], worlds[c[0]].name)], "town.id_missing")
        mon.raises(Exception, lambda: total[rng.randrange(1, n + 1)], "town.ambiguous_instance")
        # nested groups of the same instances, the site meter among them or not
        inst = rng.sample(range(1, n + 1), rng.choice([2, 3]))
        nests = [MeterGroup([meter(c, i) for i in inst]) for c in cells]
        rest = [meter(c, i) for c in cells for i in range(1, n + 1) if i not in inst]
        members = nests + rest
        rng.shuffle(members)
        town = MeterGroup(members)
        for c in cells:
            ids = [mid(c, i) for i in inst]
            rng.shuffle(ids)
            key = ElecMeterID(tuple(x.instance for x in ids), c[1], worlds[c[0]].name)
            for k in (key, tuple(key), ids, MeterGroupID(meters=tuple(ids))):
                mon.equal(flat(town[k]), set(ids), "town.group", "existing group of that building and data set", key=str(k))
                mon.event("groups of equal instances told apart")
            mon.raises(KeyError, lambda: town[ElecMeterID(tuple(inst), c[1] + 50, worlds[c[0]].name)], "town.group_building")
            mon.raises(KeyError, lambda: town[ElecMeterID(tuple(inst), c[1], "elsewhere")], "town.group_dataset")
            mon.raises(KeyError, lambda: town[ElecMeterID(tuple(inst[:-1]), c[1], worlds[c[0]].name)], "town.group_part")
        mon.equal(sorted(sorted(flat(m)) for m in town.select(building=cells[0][1], dataset=worlds[cells[0][0]].name).meters),
                  sorted(sorted(flat(m)) for m in members if {(x.building, x.dataset) for x in flat(m)} == {(cells[0][1], worlds[cells[0][0]].name)}),
                  "town.select_nested")
        for m in nests:
            mon.equal(bool(m.is_site_meter()), 1 in inst, "town.is_site_meter", "a group with a site meter is a site meter", instances=inst)
        mon.equal(sorted(sorted(flat(m)) for m in town.submeters().meters),
                  sorted(sorted(flat(m)) for m in members if not any(x.instance == 1 for x in flat(m))), "town.submeters")
        mon.equal(town.contains_meters_from_multiple_buildings(), len({c[1] for c in cells}) > 1, "town.several_buildings")
        want = {c[1] for c in cells}
        got = town.building()
        mon.equal(set(got) if isinstance(got, (set, tuple, list)) else {got}, want, "town.buildings")
        got = town.dataset()
        mon.equal(set(got) if isinstance(got, (set, tuple, list)) else {got}, {d.name for d in worlds}, "town.datasets")
        mon.state("town", len(worlds), len(cells), len(inst), 1 in inst)
    finally:
        for ds in dss:
            ds.store.close()


def order(m, apps):
    seq = [tuple(a.identifier) for a in m.appliances]
    return sorted(apps, key=lambda a: seq.index((a["type"], a["instance"])))


def rand_key1(rng, k):
    return {"type": TYPES + list(SYN), "category": ["cold", "cooking", "large", "small", "ICT"], "instance": [1, 2]}[k][rng.randrange(2 if k == "instance" else 5)]


def meter_hit(w, b, i, q):
    p = w.plan.b[b]["meters"][i]
    dev = w.plan.d.devices[p["device"]]
    md = {"device_model": p["device"], "data_location": w.plan.d.key(b, i)}
    md.update(p["md"])
    if p["site"]:
        md["site_meter"] = True
    elif p["of"] is not None:
        md["submeter_of"] = p["of"]
    ok = True
    for k, v in q.items():
        if k in ("instance", "building", "dataset"):
            ok = ok and dict(instance=i, building=b, dataset=w.name)[k] == v
        elif k in md:
            ok = ok and md[k] == v
        elif k in dev:
            ok = ok and ((v in dev[k]) if isinstance(dev[k], list) and not isinstance(v, list) else dev[k] == v)
        else:
            raise KeyError(k)
    return ok


def w_groups(mon, rng):
    w = World(rng, nb=rng.choice([1, 2]), disabled=rng.chance(0.3))
    try:
        bs = list(w.plan.b)
        el = w.ds.buildings[bs[0]].elec
        ms = list(el.meters)
        a = MeterGroup(rng.sample(ms, rng.randrange(0, len(ms) + 1)))
        b = MeterGroup(rng.sample(ms, rng.randrange(0, len(ms) + 1)))
        sa, sb = set(ids_of(a.meters)), set(ids_of(b.meters))
        mon.equal(a == b, sa == sb, "groups.equality")
        mon.equal(a != b, sa != sb, "groups.inequality")
        mon.equal(a == 1, False, "groups.foreign")
        if sa == sb:
            mon.equal(hash(a), hash(b), "groups.hash", "equal groups with different hashes")
        perm = MeterGroup(rng.sample(a.meters, len(a.meters)))
        perm.name = "renamed"
        mon.equal((perm == a, hash(perm) == hash(a), len({a, perm})), (True, True, 1), "groups.permuted")
        u = a.union(b)
        mon.equal(sorted(map(sorted, ids_of(u.meters))), sorted(map(sorted, sa | sb)), "groups.union")
        mon.equal((set(ids_of(a.meters)), set(ids_of(b.meters))), (sa, sb), "groups.operands")
        mon.raises(TypeError, lambda: a.union([1]), "groups.union_type")
        # lists of ids
        meter_ids = [m.identifier for m in ms]
        pick = [rng.choice(meter_ids) for _ in range(rng.randrange(1, 6))]
        got = el.from_list(pick)
        seen = []
        for x in pick:
            f = frozenset(x.meters) if isinstance(x, MeterGroupID) else frozenset([x])
            if f not in seen:
                seen.append(f)
        mon.equal(ids_of(got.meters), seen, "groups.from_list")
        singles = [m.identifier for m in ms if isinstance(m, ElecMeter)]
        if len(singles) > 1:
            pair = tuple(rng.sample(singles, 2))
            g = el.from_list([pair] if rng.chance(0.5) else [MeterGroupID(meters=pair)])
            mon.equal((len(g.meters), flat(g.meters[0])), (1, set(pair)), "groups.from_list_new")
        # sorting
        order_ = [frozenset(flat(m)) for m in sorted(ms, key=lambda m: m.instance() if isinstance(m.instance(), tuple) else (m.instance(),))]
        c = MeterGroup(rng.sample(ms, len(ms)))
        c.sort_meters()
        mon.equal(ids_of(c.meters), order_, "groups.sorted")
        # grouping by appliance metadata
        key = rng.choice(["type", "category"])
        groups = el.groupby(key)
        want = {}
        for m in ms:
            doms = [x.dominant_appliance() for x in (m.meters if isinstance(m, MeterGroup) else [m])]
            for d in doms:
                if d is not None:
                    for v in ([d.identifier.type] if key == "type" else cats(d.identifier.type)):
                        want.setdefault(v, set())
        for v in want:
            for m in ms:
                if any(app_matches(x, {key: v}) for x in w.apps(bs[0], m)):
                    want[v].add(frozenset(flat(m)))
        got = {g.name: set(ids_of(g.meters)) for g in groups.meters}
        mon.equal(len(got), len(groups.meters), "groups.groupby_names")
        mon.equal(got, want, "groups.groupby", "grouping by appliance metadata", key=key)
        vals = el.values_for_appliance_metadata_key(key)
        mon.equal(sorted(vals), sorted(want), "groups.values")
        for g in groups.meters:
            mon.equal(g.label(), g.name, "groups.label")
        doms = {tuple(x.identifier) for x in el.dominant_appliances()}
        mon.equal(doms, {tuple(d.identifier) for m in ms for d in [x.dominant_appliance() for x in (m.meters if isinstance(m, MeterGroup) else [m])] if d is not None},
                  "groups.dominant")
        mon.state("groups", len(sa), len(sb), sa == sb, key, len(want))
        mon.event("groups compared", len(want) + 3)
    finally:
        w.close()
