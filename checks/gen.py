"""Random data, stores and datasets used by the workloads."""
import itertools
import os
import tempfile

import numpy as np
import pandas as pd

from nilmtk.datastore import CSVDataStore, HDFDataStore, TmpDataStore
from nilmtk.timeframe import TimeFrame

COLUMNS = [("power", "active"), ("power", "apparent"), ("power", "reactive"),
           ("energy", "active"), ("energy", "reactive"), ("cumulative energy", "active"),
           ("voltage", ""), ("current", ""), ("frequency", "")]
LEVELS = ["physical_quantity", "type"]
_counter = itertools.count()


def scratch(suffix=""):
    """A fresh path inside this worker's own scratch directory."""
    return os.path.join(tempfile.gettempdir(), "s%d%s" % (next(_counter), suffix))


def mi(cols):
    return pd.MultiIndex.from_tuples(list(cols), names=LEVELS)


def rand_index(rng, n, period=None, tz=None, start=None, gaps=0.05, jitter=0.0, maxgap=50):
    """Strictly increasing DatetimeIndex: period seconds, random gaps and jitter."""
    period = period or rng.choice([1, 3, 6, 10, 60])
    start = pd.Timestamp(start or rng.choice(
        ["2012-01-01", "2013-10-26 22:00", "2014-03-29 23:30", "2013-06-07 11:59:58"]))
    steps = np.full(max(n, 1), period * 10 ** 9, dtype=np.int64)
    if gaps:
        hit = rng.np.random(len(steps)) < gaps
        steps[hit] *= rng.np.integers(2, maxgap, hit.sum())
    if jitter:
        hit = rng.np.random(len(steps)) < jitter
        steps[hit] += rng.np.integers(-period * 3 * 10 ** 8, period * 3 * 10 ** 8, hit.sum())
    ns = start.value + np.concatenate([[0], np.cumsum(steps[:n - 1])]) if n else np.array([], dtype=np.int64)
    idx = pd.DatetimeIndex(pd.to_datetime(ns[:n], unit="ns"))
    if tz:
        idx = idx.tz_localize("UTC").tz_convert(tz)
    return idx


def rand_values(rng, n, k, nan=0.0, scale=3000):
    """n x k multiples of 1/8: exactly representable, sums are exact."""
    v = rng.np.integers(0, scale * 8, (n, k)).astype(float) / 8
    if nan:
        v[rng.np.random((n, k)) < nan] = np.nan
    return v


def rand_columns(rng, kmax=3):
    cols = rng.sample(COLUMNS, rng.randrange(1, kmax + 1))
    return cols


def rand_frame_df(rng, n, cols=None, nan=0.0, **kw):
    cols = cols or rand_columns(rng)
    df = pd.DataFrame(rand_values(rng, n, len(cols), nan), index=rand_index(rng, n, **kw),
                      columns=mi(cols))
    return df


def rand_instant(rng, index, tz=None):
    """An instant on, next to or off a sample of index."""
    lo, hi = index[0].value, index[-1].value
    k = rng.randrange(6)
    if k <= 2:
        v = index[rng.randrange(len(index))].value
        if k == 1:
            v += rng.choice([-1, 1, -10 ** 9, 10 ** 9, 5 * 10 ** 8])
    elif k == 3:
        v = lo - rng.choice([1, 10 ** 9, 3600 * 10 ** 9])
    elif k == 4:
        v = hi + rng.choice([1, 10 ** 9, 3600 * 10 ** 9])
    else:
        v = rng.randrange(lo, hi + 1)
    t = pd.Timestamp(v)
    if index.tz is not None:
        t = t.tz_localize("UTC").tz_convert(tz or index.tz)
    return t


def rand_tf(rng, index, p_open=0.15, inclusive=0.3, tzs=None):
    for _ in range(50):
        a = None if rng.chance(p_open) else rand_instant(rng, index, rng.choice(tzs) if tzs else None)
        b = None if rng.chance(p_open) else rand_instant(rng, index, rng.choice(tzs) if tzs else None)
        if a is not None and b is not None:
            if a == b:
                continue
            a, b = min(a, b), max(a, b)
        tf = TimeFrame(a, b)
        tf.include_end = rng.chance(inclusive)
        return tf
    return TimeFrame()


def in_frame(index, tf):
    """Boolean mask of index members of tf (independent of TimeFrame.slice)."""
    v = index.asi8 if index.unit == "ns" else index.as_unit("ns").asi8
    m = np.ones(len(v), dtype=bool)
    if tf.empty:
        return ~m
    if tf.start is not None:
        m &= v >= tf.start.value
    if tf.end is not None:
        m &= (v <= tf.end.value) if tf.include_end else (v < tf.end.value)
    return m


def disjoint_sections(rng, index, n, inclusive=0.3):
    """Sorted non-overlapping frames whose ends fall on/near samples."""
    pts = sorted({rand_instant(rng, index).value for _ in range(2 * n)})
    out = []
    for a, b in zip(pts[::2], pts[1::2]):
        ts = [pd.Timestamp(a), pd.Timestamp(b)]
        if index.tz is not None:
            ts = [t.tz_localize("UTC").tz_convert(index.tz) for t in ts]
        tf = TimeFrame(*ts)
        tf.include_end = rng.chance(inclusive)
        out.append(tf)
    return out


def frames_equal(a, b):
    """Same rows (instants) and values and columns, bit for bit up to NaN."""
    if list(map(tuple, a.columns)) != list(map(tuple, b.columns)):
        return False
    if len(a) != len(b) or not np.array_equal(ns(a.index), ns(b.index)):
        return False
    return np.array_equal(a.values.astype(float), b.values.astype(float), equal_nan=True)


def ns(index):
    return index.as_unit("ns").asi8


def make_store(kind, path=None):
    if kind == "hdf":
        return HDFDataStore(path or scratch(".h5"), "w")
    if kind == "tmp":
        return TmpDataStore()
    if kind == "csv":
        return CSVDataStore(path or scratch("csv"))
    raise ValueError(kind)


# --- whole datasets -------------------------------------------------------
DEVICES = {
    "mains": dict(model="mains", sample_period=6, max_sample_period=30,
                  measurements=[dict(physical_quantity="power", type="active", upper_limit=50000, lower_limit=0)]),
    "sub": dict(model="sub", sample_period=6, max_sample_period=30,
                measurements=[dict(physical_quantity="power", type="active", upper_limit=50000, lower_limit=0)]),
}


def device(model, cols, period=6, maxp=30, lower=0, upper=50000):
    """A meter_devices entry measuring cols."""
    ms = []
    for pq, t in cols:
        m = dict(physical_quantity=pq)
        if t:
            m["type"] = t
        if lower is not None:
            m["lower_limit"] = lower
        if upper is not None:
            m["upper_limit"] = upper
        ms.append(m)
    return dict(model=model, sample_period=period, max_sample_period=maxp, measurements=ms)


class Data(object):
    """A dataset held in plain Python, written to a store by `write`.

    buildings: {instance: dict(meters={i: dict(df=, device=, site=, of=, md=)}, appliances=[...], md={})}
    """

    def __init__(self, name="synth", tz="Europe/London"):
        self.name, self.tz = name, tz
        self.devices = {}
        self.buildings = {}
        self.md = {}

    def building(self, i, **md):
        return self.buildings.setdefault(i, dict(meters={}, appliances=[], md=md))

    def meter(self, b, i, df, device, of=None, site=False, **md):
        self.building(b)["meters"][i] = dict(df=df, device=device, of=of, site=site, md=md)

    def appliance(self, b, type, instance, meters, **md):
        self.building(b)["appliances"].append(dict(type=type, instance=instance, meters=list(meters), **md))

    @staticmethod
    def key(b, i):
        return "/building%d/elec/meter%d" % (b, i)

    def df(self, b, i):
        return self.buildings[b]["meters"][i]["df"]

    def dataset_metadata(self):
        d = dict(name=self.name, timezone=self.tz, meter_devices=self.devices)
        d.update(self.md)
        return d

    def building_metadata(self, b):
        B = self.buildings[b]
        em = {}
        for i, m in B["meters"].items():
            e = dict(device_model=m["device"], data_location=self.key(b, i))
            if m["site"]:
                e["site_meter"] = True
            elif m["of"] is not None:
                e["submeter_of"] = m["of"]
            e.update(m["md"])
            em[i] = e
        md = dict(instance=b, elec_meters=em, appliances=[dict(a) for a in B["appliances"]])
        md.update(B["md"])
        return md

    def write(self, store, data=True):
        import copy
        if data:
            for b, B in self.buildings.items():
                for i, m in B["meters"].items():
                    if m["df"] is not None:
                        store.put(self.key(b, i), m["df"])
        store.save_metadata("/", copy.deepcopy(self.dataset_metadata()))
        for b in self.buildings:
            store.save_metadata("/building%d" % b, copy.deepcopy(self.building_metadata(b)))
        return store

    def open(self, kind="hdf", path=None):
        """Write to a fresh store and return the nilmtk DataSet on it."""
        from nilmtk import DataSet
        path = path or scratch(".h5" if kind == "hdf" else "csv")
        st = make_store(kind, path)
        self.write(st)
        st.close()
        return DataSet(path, "HDF" if kind == "hdf" else "CSV")


def house(rng, n=200, nsub=3, period=6, cols=None, tz="Europe/London", gaps=0.02, name="synth",
          nested=False, b=1, data=None, types=None, jitter=0.0, nan=0.0):
    """One building: site meter 1 and nsub submeters with one appliance each."""
    d = data or Data(name, tz)
    cols = cols or [("power", "active")]
    model = "dev%d" % len(d.devices)
    d.devices[model] = device(model, cols, period, period * 5)
    types = types or ["fridge", "kettle", "microwave", "dish washer", "light", "television", "computer",
                      "washing machine"]
    for i in range(1, nsub + 2):
        df = rand_frame_df(rng, n, cols, nan, period=period, tz=tz, start="2013-10-26 22:00",
                           gaps=gaps, jitter=jitter, maxgap=20)
        of = None
        if i > 1:
            of = 1 if (not nested or i == 2) else rng.randrange(1, i)
        d.meter(b, i, df, model, of=of, site=(i == 1))
        if i > 1:
            t = types[(i - 2) % len(types)]
            d.appliance(b, t, 1 + sum(a["type"] == t for a in d.buildings[b]["appliances"]), [i])
    return d
