"""P35: abrupt ends of the process and failures in the middle of an operation."""
import copy
import os
import signal

import numpy as np
import pandas as pd

from checks import gen
from checks.p05 import KEYS, Model, building_md, compare, new_df, rand_md
from nilmtk import DataSet
from nilmtk.datastore import CSVDataStore, HDFDataStore
from nilmtk.preprocessing import Apply
from nilmtk.timeframe import TimeFrame

WORKLOADS = [("kill_hdf", 60, 700), ("kill_csv", 40, 500), ("statistics", 40, 450), ("streams", 60, 700), ("writes", 40, 400)]
RULE = ("a child process runs a random history of store operations and is killed (SIGKILL, SIGTERM, _exit) right after the k-th "
        "acknowledged one; the store is reopened, compared with the model and used further; reads are made to fail or are abandoned at "
        "a random chunk while statistics, pipelines and groups are computed, and every later answer is compared with an undisturbed "
        "run; distinct = (store, operations, way of ending) or (failing statistic, chunk, sections)")
ASSUMPTIONS = ["the process ends between two operations, not inside HDF5's own write", "the operating system itself survives"]
TECHNIQUE = "crash and fault injection with an offline checker of the recovered store and of all later answers"
NOTE = "Held on the crash points and faults injected."


class Boom(Exception):
    pass


def rand_op(rng, kind, m):
    """One operation valid in the state of model m -> (name, key, argument)."""
    while True:
        op = rng.choice(["put", "put", "append", "append", "remove", "meta", "meta"])
        key = rng.choice(KEYS)
        if op == "put":
            return op, key, new_df(rng, kind)
        if op == "append":
            old = m.tables.get(key)
            return op, key, new_df(rng, kind, old, n=rng.choice([1, 2, 5]) if old is not None else None)
        if op == "remove" and key in m.tables:
            return op, key, None
        if op == "meta":
            k = rng.choice(["/", "/building1", "/building2"])
            if kind == "csv":
                return op, k, building_md(rng, k) if k != "/" else dict(rand_md(rng), meter_devices=rand_md(rng))
            return op, k, rand_md(rng)


def to_model(m, op, key, arg):
    if op == "put":
        m.tables[key] = arg
        m.touch(key)
        m.meta.pop(key, None)
    elif op == "append":
        m.tables[key] = pd.concat([m.tables[key], arg]) if key in m.tables else arg
        m.touch(key)
    elif op == "remove":
        m.remove(key)
    else:
        m.meta[key] = copy.deepcopy(arg)
        if key != "/" and m.kind != "csv":
            m.touch(key)


def to_store(store, op, key, arg):
    if op == "put":
        store.put(key, arg)
    elif op == "append":
        store.append(key, arg)
    elif op == "remove":
        store.remove(key)
    else:
        store.save_metadata(key, arg)


def kill(mon, rng, kind):
    path = gen.scratch(".h5" if kind == "hdf" else "csv")
    m = Model(kind)
    ops = []
    for _ in range(rng.randrange(1, 9)):
        o = rand_op(rng, kind, m)
        to_model(m, *o)
        ops.append(o)
    how = rng.choice(["SIGKILL", "SIGKILL", "SIGTERM", "_exit"])
    again = rng.chance(0.4) and len(ops) > 1       # the store is closed and reopened on the way
    r, w = os.pipe()
    gen.make_store(kind, path).close()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(60)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            store = HDFDataStore(path, "a") if kind == "hdf" else CSVDataStore(path)
            for i, o in enumerate(ops):
                if again and i == len(ops) // 2:
                    store.close()
                    store = HDFDataStore(path, "a") if kind == "hdf" else CSVDataStore(path)
                to_store(store, *o)
                os.write(w, b".")
            if how == "_exit":
                os._exit(0)
            os.kill(os.getpid(), getattr(signal, how))
        except BaseException as e:
            os.write(w, ("!%r" % (e,)).encode())
        os._exit(3)
    os.close(w)
    said = b""
    while True:
        b = os.read(r, 4096)
        if not b:
            break
        said += b
    os.close(r)
    os.waitpid(pid, 0)
    mon.note(kind, how, [(o[0], o[1]) for o in ops], said)
    mon.equal(said, b"." * len(ops), kind + ".operations", "an operation failed")
    store = HDFDataStore(path, "r") if kind == "hdf" else CSVDataStore(path)
    try:
        compare(mon, store, m, kind + ".recovered")
        if kind == "hdf":
            store.close()
            store = HDFDataStore(path, "a")
        for _ in range(rng.randrange(0, 3)):
            o = rand_op(rng, kind, m)
            to_store(store, *o)
            to_model(m, *o)
            compare(mon, store, m, kind + ".used_again")
    finally:
        store.close()
    mon.event("operations acknowledged before a crash", len(ops))
    mon.event("crash:" + how)
    mon.state(kind, how, tuple(o[0] for o in ops), again)
    mon.sample(dict(store=kind, end=how, ops=[o[0] for o in ops]))


def w_kill_hdf(mon, rng):
    kill(mon, rng, "hdf")


def w_kill_csv(mon, rng):
    kill(mon, rng, "csv")


class Flaky(object):
    """Stands between a meter and its store; its load fails after `after` chunks."""

    def __init__(self, store, after):
        self._store, self._after, self.hit = store, after, False

    def load(self, *a, **k):
        for c in self._store.load(*a, **k):
            if self._after <= 0:
                self.hit = True
                raise Boom("injected read failure")
            self._after -= 1
            yield c

    def __getattr__(self, name):
        return getattr(self._store, name)


def dataset(rng):
    d = gen.Data("p35-%d" % rng.randrange(10 ** 9), rng.choice(["UTC", "Europe/London"]))
    model = d.name
    d.devices[model] = gen.device(model, [("power", "active")], 6, 30)
    for i in range(1, rng.randrange(2, 4) + 1):
        df = gen.rand_frame_df(rng, rng.choice([20, 80]), [("power", "active")], period=6, tz=d.tz, gaps=0.08, maxgap=15,
                               start="2013-10-26 22:00")
        d.meter(1, i, df, model, of=1, site=i == 1)
        d.appliance(1, "fridge", i, [i])
    return d


def plain(x):
    if isinstance(x, pd.Series):
        return ("S", [str(k) for k in x.index], [None if v != v else round(float(v), 9) for v in x.values])
    if isinstance(x, (float, np.floating)):
        return None if x != x else round(float(x), 9)
    if isinstance(x, (list, tuple)) or hasattr(x, "_df"):
        return [(t.start.value, t.end.value) for t in x]
    return x


STATS = ["total_energy", "good_sections", "dropout_rate", "uptime", "average_energy_per_period", "total_energy_sections",
         "good_sections_sections", "group_energy", "group_power"]


def ask(el, i, name, secs):
    m = el[i]
    if name == "total_energy_sections":
        return plain(m.total_energy(sections=[copy.deepcopy(s) for s in secs]))
    if name == "good_sections_sections":
        return plain(m.good_sections(sections=[copy.deepcopy(s) for s in secs]))
    if name == "group_energy":
        return plain(el.total_energy())
    if name == "group_power":
        return [[None if v != v else round(float(v), 3) for v in c.values] for c in el.power_series()]
    return plain(getattr(m, name)())


def w_statistics(mon, rng):
    d = dataset(rng)
    path = gen.scratch(".h5")
    ds = d.open(path=path)
    from harness.core import reset_nilmtk
    try:
        ids = sorted(d.buildings[1]["meters"])
        secs = {i: gen.disjoint_sections(rng, d.df(1, i).index, rng.randrange(1, 4), inclusive=0) for i in ids}
        names = rng.sample(STATS, 4)
        asked = [(i, n) for n in names for i in ids if not n.endswith("_sections") or secs[i]]
        want = {}
        for i, n in asked:
            ds.buildings[1].elec.clear_cache()
            want[i, n] = ask(ds.buildings[1].elec, i, n, secs[i])
        ds.store.close()
        reset_nilmtk()
        ds = DataSet(path)
        el = ds.buildings[1].elec
        for i, n in rng.sample(asked, min(len(asked), rng.randrange(1, 5))):
            if rng.chance(0.3):
                mon.equal(ask(el, i, n, secs[i]), want[i, n], "statistics.before", meter=i, statistic=n)
                if rng.chance(0.5):
                    el.clear_cache()
            victims = list(el.meters) if n.startswith("group") else [el[i]]
            after = rng.choice([0, 0, 1, 2])
            flaky = Flaky(ds.store, after)
            for v in victims:
                v.store = flaky
            try:
                got = ask(el, i, n, secs[i])
                mon.equal(got, want[i, n], "statistics.undisturbed", "an answer given in spite of a failed read", meter=i, statistic=n,
                          failed=flaky.hit)
            except Boom:
                mon.event("statistics interrupted")
                mon.state("interrupted", n, after)
            finally:
                for v in victims:
                    v.store = ds.store
        for i, n in asked:
            mon.equal(ask(el, i, n, secs[i]), want[i, n], "statistics.afterwards", "a failure changed a later answer", meter=i, statistic=n)
            mon.equal(ask(el, i, n, secs[i]), want[i, n], "statistics.afterwards_cached", "a failure changed a later answer", meter=i, statistic=n)
            mon.event("answers compared after a failure", 2)
        mon.equal((ds.store.window.start, ds.store.window.end), (None, None), "statistics.window")
    finally:
        ds.store.close()


def w_streams(mon, rng):
    """Streams that are abandoned half-way, or whose own processing fails, leave no trace."""
    d = dataset(rng)
    kind = rng.choice(["hdf", "hdf", "csv"]) if d.tz == "UTC" else "hdf"
    ds = d.open(kind)
    try:
        el = ds.buildings[1].elec
        ids = sorted(d.buildings[1]["meters"])
        win = gen.rand_tf(rng, d.df(1, 1).index, p_open=0.5, inclusive=0) if rng.chance(0.4) else TimeFrame()
        ds.store.window = win

        def truth(i):
            df = d.df(1, i)
            return df[gen.in_frame(df.index, win)]
        for _ in range(rng.randrange(1, 5)):
            i = rng.choice(ids)
            kw = {}
            if rng.chance(0.6):
                kw["chunksize"] = rng.choice([3, 7, 15])
            what = rng.choice(["abandon", "abandon", "close", "fail", "group", "nested"])
            gen_ = None
            if what == "fail":
                left = [rng.randrange(0, 3)]

                def bad(df):
                    if left[0] == 0:
                        raise Boom("injected failure")
                    left[0] -= 1
                    return df
                try:
                    for c in el[i].load(preprocessing=[Apply(func=bad)], **kw):
                        pass
                except Boom:
                    mon.event("failed pipelines")
            elif what == "group":
                sub = list(el.meters)
                g = el.load(sample_period=rng.choice([6, 30]), **({"chunksize": 20} if kw else {}))
                next(g, None)
                if rng.chance(0.5):
                    g.close()
                del sub
            elif what == "nested":
                a, b = el[i].load(**kw), el[i].load(**kw)      # two readers of one table take turns
                rows_a, rows_b = [], []
                for x, y in zip(a, b):
                    rows_a.append(x)
                    rows_b.append(y)
                mon.check(len(rows_a) == len(rows_b) and all(p.equals(q) for p, q in zip(rows_a, rows_b)), "streams.two_readers")
            else:
                gen_ = el[i].load(**kw)
                for _k in range(rng.randrange(0, 3)):
                    next(gen_, None)
                if what == "close":
                    gen_.close()
            for j in ids:
                got = [c for c in el[j].load() if len(c)]
                want = truth(j)
                if not len(want):
                    mon.equal(len(got), 0, "streams.rows")
                else:
                    mon.check(len(got) == 1 and gen.frames_equal(got[0], want), "streams.rows", "rows delivered after an abandoned stream",
                              meter=j, after=what, got=got[:1], want=want)
                mon.event("loads compared")
            if gen_ is not None and what == "abandon":
                rest = list(gen_)       # and the abandoned stream itself can be resumed
                mon.check(all(set(gen.ns(c.index)) <= set(gen.ns(truth(i).index)) for c in rest if len(c)), "streams.resumed")
            mon.equal((ds.store.window.start, ds.store.window.end), (win.start, win.end), "streams.window")
            mon.state("stream", kind, what, bool(kw), win.start is None)
    finally:
        ds.store.close()


def w_writes(mon, rng):
    """A write that is refused leaves every other table, all metadata and the store usable."""
    kind = rng.choice(["hdf", "hdf", "csv", "tmp"])
    path = gen.scratch(".h5" if kind == "hdf" else "csv")
    store = gen.make_store(kind, path)
    m = Model(kind)
    try:
        for _ in range(rng.randrange(2, 6)):
            o = rand_op(rng, kind, m)
            to_store(store, *o)
            to_model(m, *o)
        for _ in range(rng.randrange(1, 4)):
            free = [k for k in KEYS if k not in m.tables]
            bad = rng.choice(["table", "remove", "load", "metadata", "getitem"] + ["append"] * (kind != "csv" and bool(m.tables)))
            n0 = len(m.tables)
            try:
                if bad == "table":
                    store.put(rng.choice(free or ["/building3/elec/meter1"]), rng.choice([None, "text", 5]))
                elif bad == "remove" and free:
                    store.remove(rng.choice(free))
                elif bad == "append":       # a table of another structure
                    k = rng.choice(sorted(m.tables))
                    df = new_df(rng, kind, m.tables[k], n=3)
                    wide = pd.concat([df, df], axis=1)
                    wide.columns = gen.mi(list(df.columns) + [("other", str(i)) for i in range(df.shape[1])])
                    store.append(k, rng.choice([df.astype(object), None, wide]))
                elif bad == "load":
                    list(store.load(rng.choice(free or ["/building9/elec/meter1"])))
                elif bad == "metadata":
                    store.load_metadata("/building77")
                else:
                    store[rng.choice(free or ["/building9/elec/meter1"])]
            except Exception:
                mon.event("refused: " + bad)
            mon.equal(len(m.tables), n0, "writes.model")
            for key, df in m.tables.items():
                mon.check(gen.frames_equal(store[key], df), "writes.table", "a refused operation changed a table", key=key, bad=bad)
            for key, md in m.meta.items():
                mon.equal(store.load_metadata(key), md, "writes.metadata", "a refused operation changed metadata", key=key, bad=bad)
            o = rand_op(rng, kind, m)
            to_store(store, *o)
            to_model(m, *o)
            for key, df in m.tables.items():
                mon.check(gen.frames_equal(store[key], df), "writes.later", key=key, bad=bad)
            mon.state("write", kind, bad, o[0])
    finally:
        store.close()
