"""P33: shared helper objects and functions keep their documented contracts."""
from collections import namedtuple
import datetime
import inspect
import os

import networkx as nx
import numpy as np
import pandas as pd

from checks import gen
from nilmtk import consts, utils
from nilmtk.docinherit import doc_inherit
from nilmtk import exceptions
from nilmtk.hashable import Hashable

WORKLOADS = [("identity", 60, 1500), ("docs", 40, 800), ("trees", 60, 1500), ("lists", 120, 3000), ("times", 120, 3000), ("stores", 30, 400),
             ("html", 60, 1500)]
RULE = ("random class hierarchies with identifiers and inherited documentation, directed graphs, nested lists, time stamps in many zones, file "
        "names and dictionaries go through the shared helpers, whose answers are compared with an independent definition; distinct = "
        "(helper, shape of the input)")
ASSUMPTIONS = ["ties of most_common may go either way"]
TECHNIQUE = "differential monitor: helper results vs independent definitions"
NOTE = "Held on the calls observed; every helper is called with valid, empty and invalid input."
ZONES = [None, "UTC", "Europe/London", "US/Eastern", "Asia/Kolkata", "Australia/Lord_Howe"]


def w_identity(mon, rng):
    names = rng.sample(["instance", "building", "dataset", "kind"], rng.randrange(1, 4))
    ID = namedtuple("ID", names)

    class A(Hashable):
        def __init__(self, *v):
            self.identifier = ID(*v)
            self.payload = object()

    class B(Hashable):
        def __init__(self, *v):
            self.identifier = ID(*v)

    class Sub(A):
        pass
    pool = [1, 2, "a", (1, 2), None]
    vals = [tuple(rng.choice(pool) for _ in names) for _ in range(6)]
    xs = [A(*v) for v in vals]
    for i, x in enumerate(xs):
        for j, y in enumerate(xs):
            same = vals[i] == vals[j]
            mon.equal(x == y, same, "eq", a=vals[i], b=vals[j])
            mon.equal(x != y, not same, "ne", a=vals[i], b=vals[j])
            if same:
                mon.equal(hash(x), hash(y), "hash")
        for other in (B(*vals[i]), vals[i], x.identifier, None, "a", 1):
            mon.check(not (x == other) and x != other, "eq.other_kind", "equal to an object of another kind", other=repr(other))
        mon.check(Sub(*vals[i]) == Sub(*vals[i]), "eq.subclass")
        mon.equal(repr(x), "A(%s)" % ", ".join("%s=%r" % p for p in zip(names, vals[i])), "repr")
        mon.equal(repr(Sub(*vals[i])).split("(")[0], "Sub", "repr.class")
    mon.equal(len(set(xs)), len(set(vals)), "set")
    d = {x: v for x, v in zip(xs, vals)}
    mon.check(all(d[A(*v)] == v for v in vals), "dict")
    mon.event("pairs", len(xs) ** 2)
    mon.state(tuple(names), len(set(vals)))


def w_docs(mon, rng):
    doc = "Frobber %d.\n\n        Details %d." % (rng.randrange(100), rng.randrange(100))
    falsy, depth = rng.chance(0.5), rng.randrange(1, 5)

    class Base(object):
        def foo(self, a, b=2, *args, **kw):
            return "base"

        if falsy:
            def __len__(self):
                return 0
    Base.foo.__doc__ = doc
    classes, kinds, cls = [], [], Base
    for i in range(depth):
        kind = rng.choice(["inherit", "inherit", "plain", "none"])

        def make(i):
            def foo(self, a, b=2, *args, **kw):
                return (i, self, a, b, args, kw)
            return foo
        ns = {"inherit": {"foo": doc_inherit(make(i))}, "plain": {"foo": make(i)}, "none": {}}[kind]
        cls = type("C%d" % i, (cls,), ns)
        classes.append(cls)
        kinds.append(kind)
    for i, c in enumerate(classes):
        owner = next((k for k in range(i, -1, -1) if kinds[k] != "none"), None)
        want = inspect.cleandoc(doc)
        # documentation comes from the closest ancestor's method
        k = owner
        while k is not None and kinds[k] == "inherit":
            k = next((q for q in range(k - 1, -1, -1) if kinds[q] != "none"), None)
        if k is not None:
            continue  # an ancestor without a doc string of its own
        obj = c()
        mon.equal(inspect.getdoc(c.foo), want, "doc.class", kinds=kinds)
        mon.equal(inspect.getdoc(obj.foo), want, "doc.instance", kinds=kinds)
        if owner is not None:
            mon.equal(obj.foo(1, b=3, z=4), (owner, obj, 1, 3, (), {"z": 4}), "call.instance", falsy=falsy)
            mon.equal(obj.foo(1, 2, 3), (owner, obj, 1, 2, (3,), {}), "call.positional", falsy=falsy)
            mon.equal(c.foo(obj, 1), (owner, obj, 1, 2, (), {}), "call.class", falsy=falsy)
            mon.equal(c.foo.__name__, "foo", "name")
        mon.event("methods")
    mon.state(tuple(kinds), falsy)
    from nilmtk.datastore import HDFDataStore
    from nilmtk.datastore.datastore import DataStore
    for n in ("__init__", "__getitem__", "load", "append", "put", "remove", "load_metadata", "save_metadata", "elements_below_key", "close",
              "open", "get_timeframe"):
        if inspect.getdoc(getattr(DataStore, n)):
            mon.equal(inspect.getdoc(getattr(HDFDataStore, n)), inspect.getdoc(getattr(DataStore, n)), "doc.datastore", method=n)


def w_trees(mon, rng):
    n = rng.randrange(1, 12)
    parents = [None] + [rng.randrange(i) for i in range(1, n)]
    labels = rng.sample(["n%d" % i for i in range(50)], n)
    g = nx.DiGraph()
    order = list(range(n))
    rng.shuffle(order)
    g.add_nodes_from(labels[i] for i in order)
    edges = [(labels[parents[i]], labels[i]) for i in range(1, n)]
    rng.shuffle(edges)
    g.add_edges_from(edges)
    before = (list(g.nodes), list(g.edges))
    mon.equal(utils.tree_root(g), labels[0], "tree_root")
    mon.equal(sorted(utils.nodes_adjacent_to_root(g)), sorted(labels[i] for i in range(1, n) if parents[i] == 0), "nodes_adjacent_to_root")
    mon.equal((list(g.nodes), list(g.edges)), before, "tree.unchanged")
    h = g.copy()
    h.add_node("extra")
    mon.raises(RuntimeError, lambda: utils.tree_root(h), "tree_root.two")
    mon.raises(RuntimeError, lambda: utils.nodes_adjacent_to_root(h), "nodes_adjacent_to_root.two")
    if n > 1:
        h = g.copy()
        h.add_edge(labels[-1], labels[0])
        mon.raises(RuntimeError, lambda: utils.tree_root(h), "tree_root.none")
    mon.raises(RuntimeError, lambda: utils.tree_root(nx.DiGraph()), "tree_root.empty")
    mon.raises(AssertionError, lambda: utils.tree_root("graph"), "tree_root.type")
    mon.event("nodes", n)
    mon.state("tree", n, tuple(parents[1:]))


def rand_item(rng):
    return rng.choice([rng.randrange(9), "ab", "", 1.5, None, ("x", 1)])


def w_lists(mon, rng):
    xs = [rand_item(rng) for _ in range(rng.randrange(0, 6))]
    mon.note(xs)
    # flatten
    nested = [rng.choice([rand_item(rng), [rand_item(rng) for _ in range(rng.randrange(0, 4))], "str"]) for _ in range(rng.randrange(0, 6))]
    want = []
    for item in nested:
        if isinstance(item, (list, tuple)):
            want += list(item)
        else:
            want.append(item)
    snap = repr(nested)
    mon.equal(utils.flatten_2d_list(nested), want, "flatten_2d_list", nested=nested)
    mon.equal(repr(nested), snap, "flatten_2d_list.argument")
    # simplest type
    for box in (list, tuple):
        got = utils.simplest_type_for(box(xs))
        mon.equal(got, None if not xs else xs[0] if len(xs) == 1 else tuple(xs), "simplest_type_for", values=xs)
    u = set(range(rng.randrange(0, 4)))
    got = utils.simplest_type_for(u)
    mon.check(got is None if not u else got == 0 if len(u) == 1 else (isinstance(got, tuple) and set(got) == u), "simplest_type_for.set")
    # strings
    sep = rng.choice(["_", "-", ", ", ""])
    mon.equal(utils.container_to_string(xs, sep), sep.join(str(x) for x in xs), "container_to_string")
    mon.equal(utils.container_to_string(tuple(xs)), "_".join(str(x) for x in xs), "container_to_string.default")
    mon.equal(utils.container_to_string("fridge"), "fridge", "container_to_string.str")
    mon.equal(utils.container_to_string(12, sep), "12", "container_to_string.scalar")
    # lists
    lst, value = list(xs), rng.choice([None, 3, "abc", [], [1, 2], (1, 2), {"a": 1}])
    ret = utils.append_or_extend_list(lst, value)
    mon.equal(lst, xs + ([] if value is None else value if isinstance(value, list) else [value]), "append_or_extend_list", value=value)
    mon.check(ret is None, "append_or_extend_list.result")
    src = rng.choice([None, list(xs), tuple(xs), "abc", range(3)])
    got = utils.convert_to_list(src)
    mon.check(isinstance(got, list) and got == ([] if src is None else list(src)), "convert_to_list", src=src, value=got)
    mon.check(got is not src, "convert_to_list.copy", "not a new list")
    if xs and len({type(x) for x in xs}) == 1 or rng.chance(0.5):
        ys = [rng.choice(["active", "apparent", "reactive"]) for _ in range(rng.randrange(1, 8))]
        got = utils.most_common(ys if rng.chance(0.5) else tuple(ys))
        mon.check(ys.count(got) == max(map(ys.count, ys)), "most_common", "not the most common", values=ys, value=got)
    words = [rng.choice(["fridge", "air conditioner", "éclair", "TV", "x", "1a", "dISH"]) for _ in range(rng.randrange(0, 5))]
    mon.equal(utils.capitalise_index(words if rng.chance(0.5) else pd.Index(words, dtype=object)), [w[:1].upper() + w[1:] for w in words], "capitalise_index")
    for w in words:
        mon.equal(utils.capitalise_first_letter(w), w[:1].upper() + w[1:], "capitalise_first_letter")
    if rng.chance(0.3):
        from matplotlib.figure import Figure
        ax = Figure().subplots()
        lines = [ax.plot([0, 1], [k, k + 1], label=w, color="C%d" % (k % 10))[0] for k, w in enumerate(words) if not w.startswith("_")]
        drawn = [w for w in words if not w.startswith("_")]
        if drawn:
            back = utils.capitalise_legend(ax)
            leg = ax.get_legend()
            mon.check(back is ax and leg is not None, "capitalise_legend.ax")
            mon.equal([t.get_text() for t in leg.get_texts()], [w[:1].upper() + w[1:] for w in drawn], "capitalise_legend.labels")
            mon.equal([h.get_color() for h in leg.legend_handles], [l.get_color() for l in lines], "capitalise_legend.lines")
            mon.event("legends")
    cols = rng.sample([("power", "active"), ("power", "reactive"), ("voltage", ""), ("energy", "active")], rng.randrange(1, 5))
    df = pd.DataFrame(np.zeros((2, len(cols))), columns=pd.MultiIndex.from_tuples(cols) if rng.chance(0.5) else pd.Index(["%s %s" % c for c in cols]))
    for i, c in enumerate(df.columns):
        mon.equal(utils.index_of_column_name(df, c), i, "index_of_column_name")
    mon.raises(KeyError, lambda: utils.index_of_column_name(df, "absent"), "index_of_column_name.absent")
    mon.state("lists", len(xs), len(nested), len(words), str(type(value)), str(type(src)))


def w_times(mon, rng):
    tz = rng.choice(ZONES)
    base = pd.Timestamp(rng.randrange(946684800 * 10 ** 9, 1700000000 * 10 ** 9))
    if rng.chance(0.5):  # around a clock change
        base = rng.choice([pd.Timestamp("2014-10-26 00:30"), pd.Timestamp("2014-03-30 00:59:59.5"), pd.Timestamp("2014-11-02 05:30")])
    mon.note(base, tz)
    aware = base.tz_localize("UTC").tz_convert(tz) if tz else base
    forms = [base, base.to_pydatetime(warn=False), str(base), np.datetime64(base.value, "ns")]
    for t in forms:
        got = utils.convert_to_timestamp(t)
        want = pd.Timestamp(t)
        mon.check(isinstance(got, pd.Timestamp) and got == want, "convert_to_timestamp", value=t, result=got)
        for zone in ZONES[1:]:
            g = utils.tz_localize_naive(t, zone)
            mon.check(g.value == want.value and str(g.tz) == zone, "tz_localize_naive", "naive time stamps are UTC", value=t, zone=zone, result=g)
    mon.check(utils.convert_to_timestamp(None) is None, "convert_to_timestamp.none")
    if tz:
        mon.check(utils.convert_to_timestamp(aware) == aware and str(utils.convert_to_timestamp(aware).tz) == tz, "convert_to_timestamp.aware")
        zone = rng.choice(ZONES[1:])
        g = utils.tz_localize_naive(aware, zone)
        mon.check(g.value == aware.value and str(g.tz) == zone, "tz_localize_naive.aware", "instant changed", value=aware, zone=zone, result=g)
    mon.equal(utils.tz_localize_naive(base, None), base, "tz_localize_naive.no_zone")
    for missing in (None, pd.NaT, np.nan):
        mon.check(utils.tz_localize_naive(missing, "Europe/London") is pd.NaT, "tz_localize_naive.missing", value=missing)
    mon.equal(utils.timestamp_is_naive(aware), tz is None, "timestamp_is_naive", value=aware)
    mon.equal(utils.timestamp_is_naive(aware.to_pydatetime(warn=False)), tz is None, "timestamp_is_naive.datetime")

    class Odd(datetime.tzinfo):
        def utcoffset(self, dt):
            return None
    mon.equal(utils.timestamp_is_naive(datetime.datetime(2014, 1, 1, tzinfo=Odd())), True, "timestamp_is_naive.no_offset")
    n = rng.randrange(0, 6)
    index = pd.DatetimeIndex([aware + pd.Timedelta(i * rng.randrange(1, 9), "s") for i in range(n)], tz=aware.tz if n else tz)
    df = pd.DataFrame({"a": np.arange(n)}, index=index)
    mon.check(utils.get_index(df) is df.index or utils.get_index(df).equals(index), "get_index.frame")
    mon.check(utils.get_index(df["a"]).equals(index), "get_index.series")
    mon.check(utils.get_index(index) is index, "get_index.index")
    for bad in ([1], np.arange(2), None, "a"):
        mon.raises(TypeError, lambda: utils.get_index(bad), "get_index.type")
    mon.equal(str(utils.get_tz(df)), str(tz), "get_tz")
    mon.check(utils.get_tz(pd.DataFrame({"a": [1]})) is None, "get_tz.none")
    k = rng.randrange(0, 5)
    deltas = np.array([rng.randrange(-10 ** 12, 10 ** 13) for _ in range(k)], dtype="timedelta64[ns]")
    unit = rng.choice(["ns", "us", "ms", "s"])
    d2 = deltas.astype("timedelta64[%s]" % unit)
    got = utils.timedelta64_to_secs(d2)
    scale = {"ns": 1e9, "us": 1e6, "ms": 1e3, "s": 1.0}[unit]
    mon.check(len(got) == k and np.allclose(got, d2.astype(np.int64) / scale, rtol=1e-12, atol=0), "timedelta64_to_secs", deltas=d2, result=got)
    mon.check(np.asarray(got).dtype.kind == "f", "timedelta64_to_secs.type")
    q, (alias, secs) = rng.randrange(1, 50), rng.choice([("s", 1), ("min", 60), ("h", 3600), ("D", 86400), ("ms", 0.001)])
    mon.close(utils.offset_alias_to_seconds("%d%s" % (q, alias)), q * secs, "offset_alias_to_seconds", alias=alias, q=q)
    mon.close(utils.offset_alias_to_seconds(alias), secs, "offset_alias_to_seconds.unit", alias=alias)
    mon.equal((consts.SECS_PER_DAY, consts.JOULES_PER_KWH), (86400, 3600000), "consts")
    mon.state("times", tz, unit, n, k)


def w_stores(mon, rng):
    from nilmtk.datastore import CSVDataStore, HDFDataStore, Key
    tmp = gen.scratch()
    os.mkdir(tmp)
    path = os.path.join(tmp, "d.h5")
    df = gen.rand_frame_df(rng, 20, [("power", "active")], tz=None)
    with_store = utils.get_datastore(path, mode="w") if rng.chance(0.5) else utils.get_datastore(path, "HDF", "w")
    mon.check(isinstance(with_store, HDFDataStore), "get_datastore.hdf")
    with_store.put("/building1/elec/meter1", df)
    with_store.close()
    for mode in ("r", "a"):                     # only "w" makes a file
        gone = os.path.join(tmp, "absent.h5")
        mon.raises(IOError, lambda: utils.get_datastore(gone, mode=mode), "get_datastore.absent")
        mon.check(not os.path.exists(gone), "get_datastore.absent_created", mode=mode)
    for _ in range(8):
        b, k = (rng.choice([1, 9, 10, 21, 99, 100, 114, 1234, 100001]) for _ in range(2))
        for text, parts in (("building%d/elec/meter%d" % (b, k), (b, k)), ("/building%d/elec/meter%d" % (b, k), (b, k)),
                            ("/building%d/elec" % b, (b, None)), ("building%d" % b, (b, None))):
            key = Key(text)
            mon.equal((key.building, key.meter), parts, "key.parsed", text=text)
            mon.equal(key.utility, "elec" if "elec" in text else None, "key.utility")
            mon.equal(str(key), "/building%d" % b + ("/elec/meter%d" % k if parts[1] else ""), "key.text")
        key = Key(building=b, meter=k)
        mon.equal(str(key), "/building%d/elec/meter%d" % (b, k), "key.built")
    s = utils.get_datastore(path)
    mon.check(isinstance(s, HDFDataStore), "get_datastore.by_name")
    mon.check(gen.frames_equal(pd.concat(list(s.load("/building1/elec/meter1"))), df), "get_datastore.keeps", "data lost by opening for reading")
    s.close()
    s = utils.get_datastore(path, mode="a")
    mon.equal(s.elements_below_key("/"), ["building1"] if isinstance(s.elements_below_key("/"), list) else {"building1"}, "get_datastore.append")
    s.close()
    odd = os.path.join(tmp, "plain.dat")
    s = utils.get_datastore(odd, format="HDF", mode="w")
    mon.check(isinstance(s, HDFDataStore), "get_datastore.format_wins")
    s.close()
    csv = os.path.join(tmp, "c" if rng.chance(0.5) else "c.csv")
    os.mkdir(csv)
    s = utils.get_datastore(csv, format=None if csv.endswith(".csv") else "CSV")
    mon.check(isinstance(s, CSVDataStore), "get_datastore.csv")
    for name in ("x.dat", "x.csv.dat", "x.h5.bak", "csv", "h5", "x.hdf"):
        mon.raises(ValueError, lambda: utils.get_datastore(os.path.join(tmp, name)), "get_datastore.unknown", name)
    mon.raises(ValueError, lambda: utils.get_datastore(path, format="XML"), "get_datastore.bad_format")
    for f in (None, "HDF", "CSV"):
        mon.raises(ValueError, lambda: utils.get_datastore(None, f), "get_datastore.none")
    utils.check_directory_exists(tmp)
    mon.raises(IOError, lambda: utils.check_directory_exists(os.path.join(tmp, "absent")), "check_directory_exists.absent")
    mon.raises(IOError, lambda: utils.check_directory_exists(path), "check_directory_exists.file")
    d = utils.get_module_directory()
    mon.check(os.path.isfile(os.path.join(d, "utils.py")), "get_module_directory")
    for n in ("TooFewSamplesError", "PerformanceWarning", "MeasurementError", "VampirePowerAlreadyInModelError"):
        mon.check(issubclass(getattr(exceptions, n), Exception), "exceptions", name=n)
    mon.check(issubclass(exceptions.PerformanceWarning, Warning), "exceptions.warning")
    mon.event("stores")
    mon.state("stores", len(df), csv[-4:])


def model_html(d):
    import re

    def fmt(v):
        if isinstance(v, str) and "http" in v:
            return re.sub(r"http[^\s)]+", lambda m: '<a href="%s">%s</a>' % (m.group(), m.group()), v)
        return str(v)
    out = []
    for k, v in d.items():
        if isinstance(v, list):
            body = "<ul>" + "".join("<li>%s</li>" % fmt(x) for x in v) + "</ul>"
        elif isinstance(v, dict):
            body = model_html(v)
        else:
            body = fmt(v)
        out.append("<li><strong>%s</strong>: %s</li>" % (k, body))
    return "<ul>" + "".join(out) + "</ul>"


def rand_dict(rng, depth=0):
    def scalar():
        return rng.choice([1, 2.5, None, True, "text", "see http://x.org/a?b=1 and (https://y.org/z)", "é", ""])
    out = {}
    for i in range(rng.randrange(0, 5)):
        r = rng.random()
        out["k%d" % i] = ([scalar() for _ in range(rng.randrange(0, 4))] if r < 0.3 else
                          rand_dict(rng, depth + 1) if r < 0.5 and depth < 3 else scalar())
    return out


def w_html(mon, rng):
    d = rand_dict(rng)
    snap = repr(d)
    mon.equal(utils.dict_to_html(d), model_html(d), "dict_to_html", d=d)
    mon.equal(repr(d), snap, "dict_to_html.argument")
    mon.event("keys", len(d))
    mon.state("html", len(d), len(snap) // 20)
