"""P28: queries leave stored data, operands and arguments unchanged."""
import copy
import hashlib
import os
import warnings

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd

from checks import gen
from nilmtk import losses, measurement, utils
from nilmtk import metrics
from nilmtk.datastore import HDFDataStore
from nilmtk.disaggregate import CO, FHMMExact, Mean
from nilmtk.electric import activation_series_for_chunk, get_activations, get_vampire_power
from nilmtk.feature_detectors.cluster import cluster
from nilmtk.feature_detectors.steady_states import cluster as cluster2, find_steady_states
from nilmtk.metergroup import MeterGroup
from nilmtk.preprocessing import Apply, Clip
from nilmtk.stats.dropoutrate import get_dropout_rate
from nilmtk.stats.dropoutrateresults import DropoutRateResults
from nilmtk.stats.goodsections import get_good_sections
from nilmtk.stats.goodsectionsresults import GoodSectionsResults
from nilmtk.stats.totalenergy import get_total_energy
from nilmtk.stats.totalenergyresults import TotalEnergyResults
from nilmtk.timeframe import (TimeFrame, list_of_timeframe_dicts, list_of_timeframes_from_list_of_dicts, merge_timeframes,
                              split_timeframes)
from nilmtk.timeframegroup import TimeFrameGroup

WORKLOADS = [("frames", 400, 6000), ("functions", 120, 1800), ("models", 10, 120), ("results", 120, 1500), ("dataset", 22, 350),
             ("store", 60, 800)]
RULE = ("random sequences of read-only operations (time frame algebra, losses, statistics, clustering, edge detection, models, "
        "results, data stores, whole datasets with windows) run on shared objects; before and after each call every argument, operand, "
        "metadata dictionary and file is fingerprinted, and each repeated query must give its first answer again; "
        "distinct = (operation, kind of arguments, position in the sequence)")
ASSUMPTIONS = ["statistics caches may grow", "operations documented to modify (append, update, setters, sort_meters, fit) are not queries"]
TECHNIQUE = "invariant monitor: fingerprints of all reachable state before vs after each operation; repeated answers compared"
NOTE = "Held on the executions observed; fingerprints cover values, dtypes, indexes, names, metadata and file bytes."
W = [("power", "active")]


# --- fingerprints ---------------------------------------------------------
def freeze(x, depth=0):
    if depth > 12:
        return "deep"
    if isinstance(x, TimeFrame):
        return ("TF", repr(x._start), repr(x._end), x.enabled, x.include_end)
    if isinstance(x, TimeFrameGroup):
        return ("TFG",) + tuple(freeze(t, depth + 1) for t in x)
    if isinstance(x, pd.DataFrame):
        return ("DF", freeze(x.index, depth + 1), freeze(x.columns, depth + 1), tuple(str(t) for t in x.dtypes),
                tuple(freeze(x.iloc[:, j].values, depth + 1) for j in range(x.shape[1])), extras(x))
    if isinstance(x, pd.Series):
        return ("S", freeze(x.index, depth + 1), str(x.name), freeze(x.values, depth + 1), extras(x))
    if isinstance(x, pd.Index):
        return ("I", type(x).__name__, tuple(map(str, x.names)), str(x.dtype), len(x), hashlib.md5(repr(list(x)).encode()).hexdigest()
                if not isinstance(x, pd.DatetimeIndex) else hashlib.md5(x.asi8.tobytes()).hexdigest())
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("O",) + tuple(freeze(e, depth + 1) for e in x.ravel())
        return ("A", x.shape, str(x.dtype), hashlib.md5(np.ascontiguousarray(x).tobytes()).hexdigest())
    if isinstance(x, dict):
        return ("D",) + tuple(sorted((repr(k), freeze(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(e, depth + 1) for e in x)
    if isinstance(x, (set, frozenset)):
        return ("set",) + tuple(sorted(repr(e) for e in x))
    if isinstance(x, MeterGroup):
        return ("MG", x.name, tuple(repr(m.identifier) for m in x.meters), tuple(repr(m.identifier) for m in x.disabled_meters))
    if isinstance(x, (TotalEnergyResults, GoodSectionsResults, DropoutRateResults)):
        return (type(x).__name__, freeze(x._data, depth + 1), x.max_sample_period if hasattr(x, "max_sample_period") else None)
    if isinstance(x, float) and x != x:
        return "nan"
    if hasattr(x, "__next__"):
        return ("iterator",)
    if callable(x):
        return ("callable", getattr(x, "__name__", ""))
    r = repr(x)
    return r if " at 0x" not in r else type(x).__name__


def extras(x):
    tf = x.__dict__.get("timeframe")
    return None if tf is None else freeze(tf)


def answer(r):
    """A query's answer as a fingerprint (iterators are exhausted)."""
    if hasattr(r, "__next__"):
        return ("gen",) + tuple(freeze(c) for c in r)
    return freeze(r)


def pure(mon, name, fn, *args, **kw):
    """Call and compare the fingerprints of all arguments before and after; return the answer's fingerprint."""
    before = freeze(args), freeze(kw)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = answer(fn(*args, **kw))
    except Exception as e:                              # whether it may raise is for other properties
        out = ("raised", type(e).__name__)
        mon.event("raised:" + type(e).__name__)
    finally:
        plt.close("all")
    after = freeze(args), freeze(kw)
    mon.check(after == before, "pure." + name, "a query changed its arguments", before=before, after=after)
    return out


def twice(mon, name, fn, *args, **kw):
    a = pure(mon, name, fn, *args, **kw)
    b = pure(mon, name, fn, *args, **kw)
    mon.check(a == b, "repeat." + name, "the same call gave another answer", first=a, second=b)
    return a


# --- time frames ----------------------------------------------------------
def rand_frames(rng, n):
    tz = rng.choice([None, "UTC", "Europe/London"])
    base = pd.Timestamp("2013-10-27 00:00", tz=tz)
    out = []
    for _ in range(n):
        a, b = sorted(rng.sample(range(0, 30), 2))
        tf = TimeFrame(base + pd.Timedelta(minutes=10 * a), base + pd.Timedelta(minutes=10 * b))
        if rng.chance(0.1):
            tf.start = None
        if rng.chance(0.1):
            tf.end = None
        tf.include_end = rng.chance(0.3)
        tf.enabled = not rng.chance(0.1)
        out.append(tf)
    return tz, base, out


def w_frames(mon, rng):
    tz, base, tfs = rand_frames(rng, rng.randrange(2, 7))
    a, b = tfs[0], rng.choice(tfs)
    df = pd.DataFrame({"x": np.arange(40.0)}, index=pd.date_range(base, periods=40, freq="7min"))
    dicts = [t.to_dict() for t in tfs if t.start is not None and t.end is not None]
    gap = rng.choice([0, 600, 1800])
    bounded = sorted([t for t in tfs if t.start is not None and t.end is not None], key=lambda t: (t.start.value, t.end.value))
    ops = {
        "union": (TimeFrame.union, a, b), "intersection": (TimeFrame.intersection, a, b), "adjacent": (TimeFrame.adjacent, a, b, gap),
        "timedelta": (lambda t: t.timedelta, a), "empty": (lambda t: t.empty, a), "query_terms": (TimeFrame.query_terms, a),
        "slice": (TimeFrame.slice, a, df), "slice_series": (TimeFrame.slice, a, df["x"]), "bool": (bool, a), "repr": (repr, a),
        "eq": (lambda x, y: x == y, a, b), "lt": (lambda x, y: x < y, a, b), "hash": (hash, a), "to_dict": (TimeFrame.to_dict, a),
        "check_tz": (TimeFrame.check_tz, a), "overlap": (TimeFrame.check_for_overlap, a, b),
        "split": (lambda t, d: list(t.split(d)), a, gap + 700), "copy": (lambda t: copy.deepcopy(t), a),
        "split_timeframes": (split_timeframes, bounded, 1900), "merge": (merge_timeframes, bounded, gap),
        "to_dicts": (list_of_timeframe_dicts, tfs), "from_dicts": (list_of_timeframes_from_list_of_dicts, dicts),
        "group": (TimeFrameGroup, tfs), "group_of_group": (TimeFrameGroup, TimeFrameGroup(tfs)),
        "group_intersection": (TimeFrameGroup.intersection, TimeFrameGroup(bounded), TimeFrameGroup(tfs)),
        "uptime": (TimeFrameGroup.uptime, TimeFrameGroup(bounded)),
        "remove_shorter": (TimeFrameGroup.remove_shorter_than, TimeFrameGroup(bounded), rng.choice([600, 1800, 5000])),
        "plot": (lambda g: None if g.plot() is None else "ax", TimeFrameGroup(bounded)),
    }
    names = rng.sample(sorted(ops), 10)
    everything = freeze((tfs, df, dicts))
    first = {}
    for name in names + rng.sample(names, 5):
        out = pure(mon, "frame." + name, *ops[name])
        mon.check(freeze((tfs, df, dicts)) == everything, "frame.bystanders", "an operation changed another object", operation=name)
        mon.check(first.setdefault(name, out) == out, "frame.repeat", "the same operation gave another answer", operation=name,
                  first=first[name], second=out)
        mon.state("frame", name, out[:1] if isinstance(out, tuple) else "", a.include_end, a.enabled)
    # what an operation returned shares no state with its operands
    r = a.union(b) if rng.chance(0.5) and (a.start is None or b.start is None or True) else None
    for name in ("split", "merge", "remove_shorter", "group", "group_intersection"):
        f, args = ops[name][0], ops[name][1:]
        try:
            out = f(*args)
        except Exception:
            continue
        out.clear() if isinstance(out, list) else None
        mon.check(freeze((tfs, df, dicts)) == everything, "frame.no_alias", "clearing a returned list emptied an operand", operation=name)
    g1, g2 = TimeFrameGroup(bounded), TimeFrameGroup(list(tfs))
    before = freeze((g1, g2))
    i = g1.intersection(g2) if all(t.start is not None and t.end is not None for t in tfs) else TimeFrameGroup(g1)
    i.append(TimeFrame())
    mon.check(freeze((g1, g2)) == before, "frame.no_alias", "extending a result extended an operand", operation="group")


# --- functions ------------------------------------------------------------
def w_functions(mon, rng):
    n = rng.choice([30, 120, 400])
    tz = rng.choice(["UTC", "Europe/London"])
    idx = gen.rand_index(rng, n, period=6, tz=tz, gaps=0.05, maxgap=20, start="2013-10-27 00:30")
    lv = rng.np.choice([0.0, 0.0, 60.0, 200.0, 1500.0], n // 6 + 1).repeat(6)[:n] + rng.np.integers(0, 5, n)
    s = pd.Series(lv, index=idx, name="fridge")
    if rng.chance(0.3):
        s.iloc[rng.np.random(n) < 0.1] = np.nan
    clean = s.dropna()
    df = pd.DataFrame(clean.values.reshape(-1, 1), index=clean.index, columns=gen.mi(W))
    df2 = pd.DataFrame({W[0]: clean.values, ("power", "reactive"): clean.values / 3}, index=clean.index)
    df2.columns = gen.mi(list(df2.columns))
    gt, pr = pd.Series(lv, idx), pd.Series(rng.np.permutation(lv), idx)
    arr = lambda x: x.values if rng.chance(0.3) else (x.to_frame("y") if rng.chance(0.3) else x)
    gt, pr = arr(gt), arr(pr)
    known, test = np.array(rng.sample(range(1000), 7), float), rng.np.integers(0, 1200, 20).astype(float)
    acs = rng.sample(["active", "apparent", "reactive"], rng.randrange(1, 4))
    mains = rng.sample(["active", "apparent", "reactive"], rng.randrange(1, 4))
    en = pd.DataFrame({("energy", "active"): lv, ("power", "active"): lv, ("power", "reactive"): lv}, index=idx)
    en.columns = gen.mi(list(en.columns))
    look = pd.DataFrame({"x": [1.0]}, index=[idx[-1] + pd.Timedelta(seconds=6)])
    tf = TimeFrame(idx[0], idx[-1] + pd.Timedelta(seconds=1))
    nested = [[1, 2], "ab", 3, [4], []]
    d = {"a": [1, "see http://x.org"], "b": {"c": "http://y.org"}, "d": None}
    two = pd.DataFrame({"a": lv, "b": lv[::-1]}, index=idx)
    two2 = two + rng.randrange(5)
    if rng.chance(0.5):
        two2.iloc[:3, 0] = np.nan
    calls = {
        "losses": None,
        "cluster": (cluster, s.to_frame() if rng.chance(0.5) else s), "cluster2": (cluster2, clean, 3),
        "steady1": (find_steady_states, df, 2, 15, rng.choice([20, 70])), "steady2": (find_steady_states, df2, 2, 15, 70),
        "activations": (get_activations, clean, rng.choice([0, 30]), rng.choice([0, 12]), rng.choice([0, 1]), rng.choice([5, 100])),
        "activation_series": (activation_series_for_chunk, clean, 0, 0, 1, 50),
        "vampire": (get_vampire_power, clean),
        "find_nearest": (utils.find_nearest, known, test), "most_common": (utils.most_common, acs + mains),
        "flatten": (utils.flatten_2d_list, nested), "container": (utils.container_to_string, nested),
        "simplest": (utils.simplest_type_for, acs), "html": (utils.dict_to_html, d), "to_list": (utils.convert_to_list, acs),
        "capitalise": (utils.capitalise_index, ["ab", "cd"]),
        "best_ac": (measurement.select_best_ac_type, acs, mains), "columns": (measurement.measurement_columns, list(W) + [("voltage", "")]),
        "dropout": (get_dropout_rate, clean.to_frame(), 6), "energy": (get_total_energy, en, tf.end, 30),
        "good": (get_good_sections, clean.to_frame(), 18, look if rng.chance(0.5) else None, False),
        "rmse": (utils.compute_rmse, two, two2, False), "safe_resample": (lambda f: utils.safe_resample(f, rule="60s", how="mean"), df),
    }
    for name in rng.sample(sorted(calls), 9) + ["losses"]:
        if name == "losses":
            for l in ("mae", "rmse", "f1score", "nde", "nep", "r2score", "relative_error", "omae"):
                if hasattr(losses, l):
                    twice(mon, "loss." + l, getattr(losses, l), gt, pr)
            continue
        c = calls[name]
        twice(mon, "function." + name, *c)
        mon.state("function", name, tz, len(clean) < n, n)
    # nodes hand on clipped or transformed chunks
    lim = dict(device=dict(measurements=[dict(physical_quantity="power", type="active", upper_limit=1000, lower_limit=5)]))

    class Up(object):
        results = None

        def dry_run_metadata(self):
            return lim
        get_metadata = dry_run_metadata

        def process(self):
            df.timeframe = tf
            yield df
    keep = freeze(lim)
    for node in (Clip(Up()), Apply(upstream=Up(), func=lambda x: x * 2)):
        list(node.process())
        mon.check(freeze(lim) == keep, "function.node_metadata", "a node changed its upstream's metadata")


# --- models ---------------------------------------------------------------
def w_models(mon, rng):
    names = rng.sample(["fridge", "kettle", "lamp"], 2)
    nb = rng.randrange(1, 3)
    col = gen.mi(W)
    train_main, apps = [], []
    parts = {a: [] for a in names}
    for _ in range(nb):
        n = 150
        idx = gen.rand_index(rng, n, period=6, tz="UTC")
        tot = np.zeros(n)
        for i, a in enumerate(names):
            v = rng.np.choice([0.0, 100.0 * (i + 1) * 3], 15).repeat(10)
            tot += v
            parts[a].append(pd.DataFrame(v.reshape(-1, 1), idx, col))
        train_main.append(pd.DataFrame(tot.reshape(-1, 1), idx, col))
    apps = [(a, parts[a]) for a in names]
    tests = [pd.DataFrame(rng.np.integers(0, 900, 20).astype(float).reshape(-1, 1), gen.rand_index(rng, 20, period=6, tz="UTC"), col)
             for _ in range(rng.randrange(1, 3))]
    M = rng.choice([Mean, Mean, CO, FHMMExact])
    m = M({})
    before = freeze((train_main, apps))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.partial_fit(train_main, apps)
    mon.check(freeze((train_main, apps)) == before, "model.fit", "training changed the training data", model=M.__name__)
    one = twice(mon, "model.disaggregate." + M.__name__, m.disaggregate_chunk, tests)
    mon.check(one[0] != "raised", "model.runs", got=one)
    # predictions of one chunk do not depend on the other chunks
    for t, want in zip(tests, one[1:]):
        got = pure(mon, "model.single", m.disaggregate_chunk, [t])
        mon.check(got[1] == want, "model.chunks_independent", "a chunk's prediction depends on other chunks", model=M.__name__)
    mon.check(freeze((train_main, apps)) == before, "model.fit", "predicting changed the training data", model=M.__name__)
    mon.state("model", M.__name__, nb, len(tests))


# --- results --------------------------------------------------------------
def rand_results(rng, cls):
    base = pd.Timestamp("2013-01-01", tz="UTC")
    r = cls(18) if cls is GoodSectionsResults else cls()
    t = 0
    for _ in range(rng.randrange(1, 5)):
        t0, t = t, t + rng.choice([600, 1200])
        tf = TimeFrame(base + pd.Timedelta(seconds=t0), base + pd.Timedelta(seconds=t))
        if cls is TotalEnergyResults:
            v = {k: float(rng.randrange(100)) for k in ("active", "apparent")}
        elif cls is DropoutRateResults:
            v = dict(dropout_rate=rng.randrange(100) / 100.0, n_samples=rng.randrange(1, 100))
        else:
            secs = [TimeFrame(tf.start, tf.start + pd.Timedelta(seconds=100)),
                    TimeFrame(tf.start + pd.Timedelta(seconds=200), tf.end)]
            v = dict(sections=[secs])
        r.append(tf, v)
        t += rng.choice([0, 0, 600])
    return r


def w_results(mon, rng):
    cls = rng.choice([TotalEnergyResults, GoodSectionsResults, DropoutRateResults])
    r = rand_results(rng, cls)
    other = copy.deepcopy(r)
    ops = dict(combined=lambda x: x.combined(), simple=lambda x: x.simple(), timeframes=lambda x: x.timeframes(),
               to_dict=lambda x: x.to_dict(), per_period=lambda x: x.per_period(), repr=repr, export=lambda x: x.export_to_cache())
    first = {}
    names = list(ops)
    for name in names + rng.sample(names, 4):
        out = pure(mon, "results." + name, ops[name], r)
        mon.check(first.setdefault(name, out) == out, "results.repeat", "the same question gave another answer", question=name, cls=cls.__name__)
        mon.check(freeze(r) == freeze(other), "results.unchanged", "a question changed the results", question=name)
    keep = freeze(other)
    s = rand_results(rng, cls)
    s.unify(copy.deepcopy(s))
    r.unify(other)
    mon.check(freeze(other) == keep, "results.unify_argument", "unifying changed the other results", cls=cls.__name__)
    r2 = rand_results(rng, cls)
    e = r2.export_to_cache()
    ke = freeze(e)
    fresh = cls(18) if cls is GoodSectionsResults else cls()
    fresh.import_from_cache(e, [tf for tf in r2.timeframes()] if False else [TimeFrame(*p) for p in zip(r2._data.index, r2._data["end"])])
    mon.check(freeze(e) == ke, "results.import_argument", "importing changed the cached table", cls=cls.__name__)
    mon.state("results", cls.__name__, len(r._data), len(r2._data))


# --- stores and datasets --------------------------------------------------
def tree(path):
    """Digest of every file below path (or of the file)."""
    out = []
    if os.path.isfile(path):
        return hashlib.md5(open(path, "rb").read()).hexdigest()
    for root, _, files in os.walk(path):
        for f in sorted(files):
            p = os.path.join(root, f)
            out.append((p, hashlib.md5(open(p, "rb").read()).hexdigest()))
    return tuple(sorted(out))


def w_store(mon, rng):
    kind = rng.choice(["hdf", "hdf", "csv"])
    path = gen.scratch(".h5" if kind == "hdf" else "csv")
    n = rng.choice([5, 40, 200])
    cols = gen.rand_columns(rng)
    df = gen.rand_frame_df(rng, n, cols, tz="Europe/London")
    st = gen.make_store(kind, path)
    keep = freeze(df)
    md = dict(instance=1, elec_meters={1: dict(data_location="/building1/elec/meter1")}, x=[1, 2])
    kmd = freeze(md)
    st.put("/building1/elec/meter1", df)
    st.save_metadata("/", dict(name="x", timezone="UTC", meter_devices={}))
    st.save_metadata("/building1", md)
    mon.check(freeze(df) == keep and freeze(md) == kmd, "store.write_arguments", "writing changed the caller's data", kind=kind)
    st.close()
    if kind == "hdf":
        st = HDFDataStore(path, rng.choice(["r", "a"]))
    key = rng.choice(["/building1/elec/meter1", "building1/elec/meter1"]) if kind == "hdf" else "/building1/elec/meter1"
    if rng.chance(0.5):
        st.window = gen.rand_tf(rng, df.index)
    sections = gen.disjoint_sections(rng, df.index, rng.randrange(1, 4))
    columns = rng.sample(cols, rng.randrange(1, len(cols) + 1))
    chunk = rng.choice([3, 17, 10 ** 6])
    ops = {
        "load": lambda: pure(mon, "store.load", st.load, key, columns=columns, sections=sections, chunksize=chunk),
        "load_all": lambda: pure(mon, "store.load", st.load, key, chunksize=chunk),
        "look": lambda: pure(mon, "store.load", st.load, key, sections=TimeFrameGroup(sections), n_look_ahead_rows=4, chunksize=chunk),
        "getitem": lambda: pure(mon, "store.getitem", lambda k: st[k], key),
        "timeframe": lambda: pure(mon, "store.get_timeframe", st.get_timeframe, key),
        "metadata": lambda: pure(mon, "store.load_metadata", st.load_metadata, "/building1"),
        "elements": lambda: pure(mon, "store.elements", lambda: sorted(st.elements_below_key("/"))),
    }
    # a reader that stops early, and a caller that scribbles on what it got
    def abandon():
        g = st.load(key, columns=columns, sections=sections, chunksize=3)
        next(g, None)
        del g

    def scribble():
        for c in st.load(key, chunksize=chunk):
            c.iloc[:, :] = -1.0
        m = st.load_metadata("/building1")
        m["elec_meters"].clear()
        m["x"].append(3)
    win = freeze(st.window)
    first = {}
    seq = [rng.choice(sorted(ops) + ["abandon", "scribble"]) for _ in range(14)]
    for name in seq:
        if name == "abandon":
            abandon()
        elif name == "scribble":
            scribble()
        else:
            out = ops[name]()
            mon.check(first.setdefault(name, out) == out, "store.repeat", "the same read gave another answer", read=name, sequence=seq, kind=kind)
        mon.check(freeze(st.window) == win, "store.window", "a read moved the window", read=name)
    st.close()
    st = HDFDataStore(path, "r") if kind == "hdf" else gen.make_store("csv", path)
    full = pd.concat(list(st.load("/building1/elec/meter1")))
    mon.check(gen.frames_equal(full, df), "store.contents", "reading changed the stored samples", sequence=seq)
    mon.check(freeze(st.load_metadata("/building1")) == kmd, "store.metadata", "reading changed the stored metadata", sequence=seq)
    st.close()
    mon.state("store", kind, n, len(sections), chunk, tuple(sorted(set(seq))))


def w_dataset(mon, rng):
    tz = rng.choice(["UTC", "Europe/London"])
    kind = rng.choice(["hdf", "hdf", "csv"])
    d = gen.Data("p28-%d" % rng.randrange(10 ** 9), tz)
    model = d.name + "dev"
    d.devices[model] = gen.device(model, W, 6, 18, 0, 5000)
    n = rng.choice([60, 150])
    idx = gen.rand_index(rng, n, period=6, tz=tz, gaps=0.04, maxgap=12, start="2013-06-01 00:30")
    for i in range(1, 5):
        v = rng.np.choice([0.0, 0.0, 100.0 * i, 700.0], n // 5 + 1).repeat(5)[:n] + rng.np.integers(0, 4, n)
        d.meter(1, i, pd.DataFrame(v.reshape(-1, 1), idx, gen.mi(W)), model, of=1, site=i == 1)
        if i > 1:
            d.appliance(1, ["fridge", "kettle", "light"][i - 2], 1, [i])
    path = gen.scratch(".h5" if kind == "hdf" else "csv")
    ds = d.open(kind, path)
    bytes_before = tree(path)
    elec = ds.buildings[1].elec
    meter, other = elec[2], elec[3]
    sections = gen.disjoint_sections(rng, idx, rng.randrange(1, 3))
    half = TimeFrame(idx[n // 4], idx[3 * n // 4])
    lk = dict(sections=sections)
    rk = dict(fill_method="ffill", how="mean")
    cols = [W[0]]
    pre = [Clip()]
    allm = elec
    ops = {
        "load": lambda: pure(mon, "meter.load", meter.load, sections=sections, physical_quantity="power", ac_type="best"),
        "load_cols": lambda: pure(mon, "meter.load", meter.load, columns=cols),
        "load_pre": lambda: pure(mon, "meter.load", meter.load, preprocessing=pre),
        "resample": lambda: pure(mon, "meter.resample", meter.load, sample_period=12, resample_kwargs=rk),
        "resample_group": lambda: pure(mon, "group.load", allm.load, sample_period=30, sections=sections),
        "power_series": lambda: pure(mon, "meter.power_series", meter.power_series, **lk),
        "all_data": lambda: pure(mon, "meter.power_series_all_data", meter.power_series_all_data),
        "energy": lambda: pure(mon, "meter.total_energy", meter.total_energy, **lk),
        "energy_all": lambda: pure(mon, "meter.total_energy", meter.total_energy),
        "good": lambda: pure(mon, "meter.good_sections", meter.good_sections),
        "dropout": lambda: pure(mon, "meter.dropout_rate", meter.dropout_rate, ignore_gaps=False, **lk),
        "uptime": lambda: pure(mon, "meter.uptime", meter.uptime),
        "activations": lambda: pure(mon, "meter.get_activations", meter.get_activations, on_power_threshold=50),
        "switches": lambda: pure(mon, "meter.switch_times", meter.switch_times),
        "when_on": lambda: pure(mon, "meter.when_on", meter.when_on, on_power_threshold=50),
        "histogram": lambda: pure(mon, "meter.activity_histogram", meter.activity_histogram, bin_duration="h"),
        "average": lambda: pure(mon, "meter.average", meter.average_energy_per_period, "h"),
        "proportion": lambda: pure(mon, "meter.proportion_of_energy", meter.proportion_of_energy, elec.mains()),
        "upstream": lambda: pure(mon, "meter.proportion_of_upstream", meter.proportion_of_upstream),
        "correlation": lambda: pure(mon, "meter.correlation", meter.correlation, other),
        "plot": lambda: pure(mon, "meter.plot", lambda t: meter.plot(timeframe=t) and None, half),
        "plot_hist": lambda: pure(mon, "meter.plot_hist", lambda k: meter.plot_power_histogram(load_kwargs=k) and None, dict(sections=sections)),
        "group_energy": lambda: pure(mon, "group.total_energy", elec.submeters().total_energy),
        "per_meter": lambda: pure(mon, "group.energy_per_meter", elec.energy_per_meter),
        "fraction": lambda: pure(mon, "group.fraction", elec.submeters().fraction_per_meter),
        "select": lambda: pure(mon, "group.select", elec.select_using_appliances, type=["fridge", "kettle"]),
        "top": lambda: pure(mon, "group.top_k", elec.submeters().select_top_k, 2),
        "frame": lambda: pure(mon, "group.dataframe", elec.dataframe_of_meters, rule="60s"),
        "graph": lambda: pure(mon, "group.wiring", lambda: sorted(map(repr, elec.wiring_graph().edges()))),
        "labels": lambda: pure(mon, "group.labels", elec.get_labels, [m.identifier for m in elec.meters]),
        "submeters": lambda: pure(mon, "group.submeters", lambda e: [repr(m) for m in e.submeters().meters], elec),
        "mains": lambda: pure(mon, "group.mains", lambda e: repr(e.mains().identifier), elec),
        "good_plot": lambda: pure(mon, "group.plot_good", lambda e: e.plot_good_sections() and None, elec),
        "union": lambda: pure(mon, "group.union", lambda e, f: e.union(f), elec, elec.submeters()),
        "describe": lambda: pure(mon, "group.train_test", elec.train_test_split, 0.5),
        "timeframe": lambda: pure(mon, "group.get_timeframe", elec.get_timeframe),
        "clear": lambda: pure(mon, "meter.clear_cache", meter.clear_cache),
    }
    if rng.chance(0.5):
        ds.set_window(*[str(idx[k].tz_localize(None)) for k in (n // 8, 7 * n // 8)])
    mds = lambda: freeze([ds.metadata, ds.buildings[1].metadata, [{k: v for k, v in m.metadata.items() if k != "device"} for m in elec.all_meters()],
                          [a.metadata for a in sorted(elec.appliances, key=repr)], elec, meter.device])
    md0, win = mds(), freeze(ds.store.window)
    first = {}
    names = rng.sample(sorted(ops), 12)
    seq = names + [rng.choice(names) for _ in range(8)]
    raised = 0
    for name in seq:
        out = ops[name]()
        raised += isinstance(out, tuple) and out[:1] == ("raised",)
        mon.note(name, str(out)[:150])
        mon.check(first.setdefault(name, out) == out, "dataset.repeat", "the same query gave another answer", query=name, sequence=seq)
        mon.check(mds() == md0, "dataset.metadata", "a query changed metadata or the group", query=name)
        mon.check(freeze(ds.store.window) == win, "dataset.window", "a query moved the window", query=name)
    mon.check(raised < len(seq), "dataset.all_raise")
    ds.store.close()
    mon.check(tree(path) == bytes_before, "dataset.files", "queries changed the files of the dataset", sequence=seq)
    for name in names:
        mon.state("dataset", kind, name)
