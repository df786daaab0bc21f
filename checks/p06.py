"""P06: convert_datastore is lossless."""
import copy

import numpy as np

from checks import gen
from nilmtk.datastore.datastore import convert_datastore
from nilmtk.timeframe import TimeFrame

WORKLOADS = [("convert", 70, 900), ("roundtrip", 40, 600)]
RULE = ("random stores (1-12 buildings, 1-12 meters, nested metadata, irregular tables with NaN) are converted in "
        "every direction (HDF/temporary/CSV to HDF/CSV) and both stores compared key by key, row by row and "
        "metadata entry by metadata entry; distinct = (direction, #buildings, #meters, table size class)")
ASSUMPTIONS = ["the input store's window is unset", "metadata consists of YAML-able plain data",
               "CSV output is given tables without NaN, whose text form is the store's own business"]
TECHNIQUE = "conservation monitor: contents of output store vs input store vs model, both directions"
NOTE = "Held on the executions observed; all keys, rows, columns and metadata of both stores are compared."


def rand_md(rng, depth=0):
    out = {}
    for _ in range(rng.randrange(0, 4)):
        k = rng.choice(["name", "geo", "notes", "n_occupants", "a-b", "x"])
        v = rng.choice([1, 2.5, "text", "tz: Europe/London", True, None, [1, "a"], ["x", {"y": 2}], "", u"caf\u00e9"])
        if depth < 2 and rng.chance(0.3):
            v = rand_md(rng, depth + 1)
        out[k] = v
    return out


def rand_data(rng, csv):
    d = gen.Data("ds%d" % rng.randrange(100), rng.choice(["Europe/London", "UTC"]))
    d.md.update(rand_md(rng))
    d.md.pop("name", None)
    for b in rng.sample(range(1, 13), rng.choice([1, 1, 2, 3, 11])):
        cols = gen.rand_columns(rng)
        model = "m%d" % b
        d.devices[model] = gen.device(model, cols)
        d.building(b, **{k: v for k, v in rand_md(rng).items()})
        for i in rng.sample(range(1, 13), rng.choice([1, 1, 2, 4, 11])):
            n = rng.choice([1, 2, 3, 9, 40])
            df = gen.rand_frame_df(rng, n, cols, nan=0 if csv else rng.choice([0, 0.1]),
                                   tz=rng.choice([None, "UTC", "Europe/London"]))
            if n > 2 and rng.chance(0.15):      # two readings of the same instant are two rows
                k = rng.randrange(n - 1)
                df = df.iloc[[*range(k + 1), k, *range(k + 1, n)]]
            d.meter(b, i, df, model, of=0, **{k: v for k, v in rand_md(rng).items()})
        d.appliance(b, "fridge", 1, [1])
    return d


def contents(store, inp):
    out = {}
    for b in store.elements_below_key("/"):
        for u in store.elements_below_key("/" + b):
            for m in store.elements_below_key("/%s/%s" % (b, u)):
                k = "/%s/%s/%s" % (b, u, m)
                if m == "cache" and inp:
                    continue
                out[k] = list(store.load(k))
    return out


def judge(mon, store, d, what):
    keys = {gen.Data.key(b, i) for b, B in d.buildings.items() for i in B["meters"]}
    got = contents(store, what == "input_unchanged")
    mon.equal(set(got), keys, what + ".keys")
    for b, B in d.buildings.items():
        for i, m in B["meters"].items():
            chunks = [c for c in got[gen.Data.key(b, i)]]
            mon.equal(len(chunks), 1, what + ".one_chunk")
            mon.check(gen.frames_equal(chunks[0], m["df"]), what + ".rows", "table differs after conversion",
                      key=gen.Data.key(b, i), got=chunks[0], want=m["df"])
            mon.event("rows compared", len(m["df"]))
        mon.equal(store.load_metadata("/building%d" % b), d.building_metadata(b), what + ".building_metadata")
    mon.equal(store.load_metadata("/"), d.dataset_metadata(), what + ".dataset_metadata")


def w_convert(mon, rng):
    src = rng.choice(["hdf", "tmp", "csv"])
    dst = rng.choice(["hdf", "csv"])
    d = rand_data(rng, "csv" in (src, dst))
    snap = copy.deepcopy(d)
    a, b = gen.make_store(src), None
    try:
        d.write(a)
        if src != "csv" and rng.chance(0.3):     # statistics that older versions cached inside the store are not data
            k = rng.choice(sorted(d.buildings))
            i = rng.choice(sorted(d.buildings[k]["meters"]))
            a.put("/building%d/elec/cache/meter%d/total_energy" % (k, i), gen.rand_frame_df(rng, 2, [("power", "active")], tz="UTC"))
            mon.event("stores with cached statistics")
        path = gen.scratch(".h5" if dst == "hdf" else "csv")
        b = gen.make_store(dst, path)
        mon.note(src, "->", dst, sorted(d.buildings))
        convert_datastore(a, b)
        judge(mon, b, snap, "output")
        judge(mon, a, snap, "input_unchanged")
        mon.state(src, dst, len(d.buildings), max(len(x["meters"]) for x in d.buildings.values()))
        if rng.chance(0.5):
            b.close()
            from nilmtk.utils import get_datastore
            b = get_datastore(path, "HDF" if dst == "hdf" else "CSV", "r")
            judge(mon, b, snap, "reopened")
    finally:
        a.close()
        if b is not None:
            b.close()


def w_roundtrip(mon, rng):
    mid = rng.choice(["hdf", "csv"])
    end = "csv" if mid == "hdf" else "hdf"
    d = rand_data(rng, True)
    stores = [gen.make_store(end), gen.make_store(mid), gen.make_store(end)]
    try:
        d.write(stores[0])
        convert_datastore(stores[0], stores[1])
        convert_datastore(stores[1], stores[2])
        judge(mon, stores[2], d, "roundtrip")
        mon.state(end, mid, len(d.buildings), "rt")
    finally:
        for s in stores:
            s.close()
