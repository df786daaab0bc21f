"""P05: store histories against a model: put/append/remove/metadata/reopen."""
import copy
import os

import numpy as np
import pandas as pd

from checks import gen
from nilmtk.datastore import CSVDataStore, HDFDataStore, Key, TmpDataStore
from nilmtk.datastore.datastore import join_key

WORKLOADS = [("hdf", 160, 2000), ("csv", 120, 1500), ("tmp", 40, 400), ("keys", 300, 3000)]
RULE = ("random histories of 6-14 put/append/remove/save_metadata/close+reopen operations on a few keys, the whole "
        "store compared with a dictionary model after every operation; distinct = (store, sequence of operation kinds)")
ASSUMPTIONS = ["appended frames have the columns of the table they extend, and later times",
               "CSV stores hold naive or UTC times and 'building*/elec/meter*' keys, as the store requires"]
TECHNIQUE = "history monitor against an executable model of the store"
NOTE = "Held on the histories observed."


def rand_md(rng, depth=0):
    out = {}
    for _ in range(rng.randrange(1, 4)):
        k = rng.choice(["name", "timezone", "notes", "model", "x%d" % rng.randrange(9)])
        r = rng.randrange(6)
        out[k] = (rng.randrange(100) if r == 0 else rng.choice(["a", "Europe/London", ""]) if r == 1
                  else [1, rng.randrange(9)] if r == 2 else rng.chance(0.5) if r == 3
                  else 0.125 * rng.randrange(99) if r == 4 or depth > 1 else rand_md(rng, depth + 1))
    return out


class Model(object):
    def __init__(self, kind):
        self.kind = kind
        self.tables = {}
        self.meta = {}
        self.groups = set()

    def touch(self, key):
        parts = key.strip("/").split("/")
        for i in range(1, len(parts) + 1):
            self.groups.add("/" + "/".join(parts[:i]))

    def remove(self, key):
        pre = key + "/"
        for d in (self.tables, self.meta):
            if d is self.meta and self.kind == "csv":
                continue
            for k in list(d):
                if k == key or k.startswith(pre):
                    del d[k]
        self.groups = {g for g in self.groups if g != key and not g.startswith(pre)}

    def children(self, key):
        base = key.rstrip("/") + "/"
        return sorted(g[len(base):] for g in self.groups if g.startswith(base) and "/" not in g[len(base):])


def compare(mon, store, m, what):
    for key, df in m.tables.items():
        got = store[key]
        mon.check(gen.frames_equal(got, df), what + ".table", "stored table differs from what was written",
                  key=key, got=got, want=df)
        mon.equal(got.index.tz is None, df.index.tz is None, what + ".tz")
        if m.kind != "csv":
            mon.equal(str(got.index.tz), str(df.index.tz), what + ".tz")
            mon.equal([str(t) for t in got.dtypes], [str(t) for t in df.dtypes], what + ".dtypes")
            mon.equal(list(got.columns.names), list(df.columns.names), what + ".names")
        if len(df):
            parts = [c for c in store.load(key) if len(c.index)]
            mon.check(len(parts) == 1 and gen.frames_equal(parts[0], df), what + ".load", "", key=key)
    for key, md in m.meta.items():
        got = store.load_metadata(key)
        mon.equal(got, md, what + ".metadata", key)
        got["poison"] = 1
        mon.equal(store.load_metadata(key), md, what + ".metadata_copy", key)
    for key in ["/"] + sorted(m.groups):
        if key in m.tables:
            continue
        mon.equal(sorted(store.elements_below_key(key)), m.children(key), what + ".children", key)
        if key != "/" and "/" not in key[1:]:
            mon.equal(sorted(store.elements_below_key(key[1:])), m.children(key), what + ".children", key)
    for key in KEYS:
        if key not in m.tables:
            mon.raises(KeyError, lambda: list(store.load(key)), what + ".absent", key)


KEYS = ["/building1/elec/meter1", "/building1/elec/meter2", "/building1/elec/meter10",
        "/building2/elec/meter1", "/building11/elec/meter1"]


def new_df(rng, kind, like=None, n=None):
    n = n if n is not None else rng.choice([1, 2, 2, 3, 8, 30])
    if like is None:
        tz = rng.choice([None, "UTC", "Europe/London"])
        df = gen.rand_frame_df(rng, n, nan=0 if kind == "csv" else rng.choice([0, 0.1]), tz=tz)
        if kind != "csv" and rng.chance(0.3):
            df = df.astype("float32")
        return df
    idx = gen.rand_index(rng, n + 1, period=5, gaps=0)
    off = like.index[-1].value - idx[0].value
    idx = pd.DatetimeIndex(pd.to_datetime(gen.ns(idx)[1:] + off, unit="ns"))
    if like.index.tz is not None:
        idx = idx.tz_localize("UTC").tz_convert(like.index.tz)
    return pd.DataFrame(gen.rand_values(rng, n, like.shape[1]), index=idx, columns=like.columns).astype(
        like.dtypes.iloc[0])


def building_md(rng, key):
    md = {"instance": int(key.replace("/building", "")), "notes": rand_md(rng), "elec_meters": {}}
    for i in range(1, rng.randrange(1, 4)):
        md["elec_meters"][i] = {"device_model": "m", "site_meter": i == 1,
                                "data_location": "%s/elec/meter%d" % (key, i)}
    return md


def history(mon, rng, kind):
    path = gen.scratch(".h5" if kind == "hdf" else "csv")
    store = gen.make_store(kind, path)
    m = Model(kind)
    ops = []
    try:
        for _ in range(rng.randrange(6, 15)):
            op = rng.choice(["put", "put", "append", "append", "remove", "meta", "meta", "reopen", "purge"])
            key = rng.choice(KEYS)
            if op == "put":
                df = new_df(rng, kind)
                before = df.copy()
                store.put(key, df)
                mon.check(gen.frames_equal(df, before), "put.argument")
                m.tables[key] = df
                m.touch(key)
            elif op == "append":
                old = m.tables.get(key)
                df = new_df(rng, kind, old, n=rng.choice([1, 2, 5]) if old is not None else None)
                store.append(key, df)
                m.tables[key] = df if old is None else pd.concat([old, df])
                m.touch(key)
            elif op == "remove":
                if key not in m.tables:
                    continue
                store.remove(key)
                m.remove(key)
            elif op == "purge":
                b = key[:key.index("/", 1)]
                if b not in m.groups or rng.chance(0.6):
                    continue
                store.remove(b)
                m.remove(b)
            elif op == "meta":
                k = rng.choice(["/", "/building1", "/building2"] + ([key] if kind != "csv" else []))
                if kind == "csv":
                    md = building_md(rng, k) if k != "/" else dict(rand_md(rng), meter_devices=rand_md(rng))
                else:
                    md = rand_md(rng)
                    if k in KEYS and k not in m.tables:
                        continue
                keep = copy.deepcopy(md)
                store.save_metadata(k, md)
                mon.equal(md, keep, "save_metadata.argument")
                md["later"] = "edit"
                m.meta[k] = keep
                if k != "/" and kind != "csv":
                    m.touch(k)
            elif op == "reopen":
                store.close()
                if kind == "hdf":
                    if rng.chance(0.5):
                        store.open()
                    else:
                        store = HDFDataStore(path, "a")
                else:
                    store.open()
                    store = CSVDataStore(path)
            if op == "put" and kind == "hdf":
                pass
            # a replaced table loses the metadata that hung on its node (HDF5)
            if op == "put" and key in m.meta:
                del m.meta[key]
            ops.append(op)
            mon.note(op, key)
            mon.event("op:" + op)
            compare(mon, store, m, kind)
        mon.state(kind, tuple(ops))
        mon.sample(dict(store=kind, ops=ops, tables=sorted(m.tables)))
        store.close()
        if kind == "hdf":
            ro = HDFDataStore(path, "r")
            compare(mon, ro, m, "hdf-readonly")
            ro.close()
    finally:
        try:
            store.close()
        except Exception:
            pass


def w_hdf(mon, rng):
    history(mon, rng, "hdf")


def w_csv(mon, rng):
    history(mon, rng, "csv")


def w_tmp(mon, rng):
    fds = len(os.listdir("/proc/self/fd"))
    import tempfile
    before = set(os.listdir(tempfile.gettempdir()))
    s1, s2 = TmpDataStore(), TmpDataStore()
    try:
        a, b = new_df(rng, "tmp"), new_df(rng, "tmp")
        s1.put(KEYS[0], a)
        s2.put(KEYS[0], b)
        s1.save_metadata("/", {"name": "one"})
        s2.save_metadata("/", {"name": "two"})
        mon.check(gen.frames_equal(s1[KEYS[0]], a) and gen.frames_equal(s2[KEYS[0]], b), "tmp.independent")
        mon.equal(s1.load_metadata(), {"name": "one"}, "tmp.metadata")
        mon.equal(s2.load_metadata(), {"name": "two"}, "tmp.metadata")
        new = set(os.listdir(tempfile.gettempdir())) - before
        mon.check(len(new) >= 2, "tmp.on_disk", "no file while open")
        mon.state(len(a), len(b))
    finally:
        s1.close()
        s2.close()
    mon.equal(set(os.listdir(tempfile.gettempdir())) - before, set(), "tmp.removed")
    mon.equal(len(os.listdir("/proc/self/fd")), fds, "tmp.descriptors", "open files left behind")
    s1.close()      # closing twice is harmless
    mon.raises((IOError, OSError), lambda: HDFDataStore(gen.scratch(".h5"), "r"), "hdf.absent_file")


def w_keys(mon, rng):
    b, k = rng.randrange(1, 200), rng.randrange(1, 200)
    s = "/building%d/elec/meter%d" % (b, k)
    for text in (s, s[1:], s + "/"):
        key = Key(text)
        mon.equal((key.building, key.meter, key.utility, str(key)), (b, k, "elec", s), "key.parse")
    key = Key("/building%d" % b)
    mon.equal((key.building, key.meter, key.utility, str(key)), (b, None, None, "/building%d" % b), "key.parse")
    key = Key("building%d/elec" % b)
    mon.equal((key.building, key.meter, key.utility), (b, None, "elec"), "key.parse")
    mon.equal(str(Key(building=b, meter=k)), s, "key.make")
    bad = rng.choice(["", "house1", "/buildingx/elec/meter1", "/building0", "/building1/elec/meter0",
                      "/building1/elec/fridge1", "/building1/elec/meterx"])
    mon.raises((AssertionError, ValueError), lambda: Key(bad), "key.bad", bad)
    parts = [rng.choice(["building%d" % b, "elec", "meter%d" % k, "", "/", "/cache/", "a/b", "x"])
             for _ in range(rng.randrange(0, 5))]
    want = "/" + "/".join(q for q in (p.strip("/") for p in parts) if q)
    mon.state(len(parts), want.count("/"))
    mon.equal(join_key(*parts), want, "join_key", "", parts=parts)
