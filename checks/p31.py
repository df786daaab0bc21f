"""P31: disaggregation output stores (legacy disaggregators)."""
import copy
import os
import types

import numpy as np
import pandas as pd

from checks import gen
from nilmtk import DataSet
from nilmtk.datastore import HDFDataStore
from nilmtk.legacy.disaggregate import CombinatorialOptimisation, FHMM, Hart85
from nilmtk.legacy.disaggregate.disaggregator import Disaggregator
from nilmtk.timeframe import TimeFrame
from nilmtk.timeframegroup import TimeFrameGroup

WORKLOADS = [("metadata", 150, 2500), ("co", 10, 120), ("fhmm", 5, 50), ("hart", 6, 60), ("refusals", 20, 200)]
RULE = ("random houses (several levels per appliance, gaps, short good sections, any building number) are disaggregated into a fresh "
        "store; every row written is compared with the mains chunks read independently and with the learnt model, the written store is "
        "opened as a dataset and its meters, appliances, devices and extents are compared with the house; models are exported, imported "
        "and run again; distinct = (algorithm, #appliances, #chunks written and skipped, sample period, building)")
ASSUMPTIONS = ["one power column", "mains is a single meter", "no missing values inside a good section"]
TECHNIQUE = "conservation and differential monitor over the rows and metadata written to the output store"
NOTE = "Held on the disaggregations observed; every output row and metadata entry is compared."
ACT = ("power", "active")


# --- metadata only: runs with stand-in meters and a recording store -------------------------------------------------
class Recorder(object):
    def __init__(self):
        self.saved = {}

    def save_metadata(self, key, md):
        self.saved.setdefault(key, []).append(copy.deepcopy(md))


def fake_meter(i, apps, name):
    m = types.SimpleNamespace(name=name)
    m.instance = lambda: i
    m.appliances = [types.SimpleNamespace(identifier=types.SimpleNamespace(type=t, instance=k)) for t, k in apps]
    return m


def frames(rng, period, tz):
    t = pd.Timestamp("2013-10-26 22:00", tz=tz) + pd.Timedelta(seconds=rng.randrange(10 ** 5))
    out = []
    for _ in range(rng.randrange(1, 5)):
        e = t + pd.Timedelta(seconds=rng.randrange(1, 50) * period)
        out.append(TimeFrame(t, e))
        t = e + pd.Timedelta(seconds=rng.choice([0, 1, period, period + 1, 7 * period]))
    return out


def w_metadata(mon, rng):
    d = Disaggregator()
    d.MODEL_NAME = rng.choice(["CO", "FHMM", "Hart85", "mymodel"])
    period = rng.choice([1, 6, 60, 900])
    meas = rng.choice([("power", "active"), ("power", "apparent"), ("power", "reactive")])
    tfs = frames(rng, period, rng.choice([None, "UTC", "Europe/London"]))
    group = rng.chance(0.3)
    b = rng.randrange(1, 30)
    st = Recorder()
    sup = rng.chance(0.6)
    keep = [(t.start, t.end) for t in tfs]
    arg = TimeFrameGroup(tfs) if group else tfs
    if sup:
        ids = rng.sample(range(2, 40), rng.randrange(1, 6))
        cnt = {}
        meters = []
        for i in ids:
            apps = []
            for _ in range(rng.choice([0, 1, 1, 2, 5])):
                t = rng.choice(["fridge", "kettle", "light"])
                cnt[t] = cnt.get(t, 0) + 1
                apps.append((t, cnt[t]))
            meters.append(fake_meter(i, apps, rng.choice([None, "", "my name"])))
        d._save_metadata_for_disaggregation(st, period, meas, arg, b, meters=meters)
        want_apps = sorted((t.identifier.type, t.identifier.instance, (m.instance(),)) for m in meters for t in m.appliances)
    else:
        n = rng.choice([1, 2, 5, 12, 40])
        ids = list(range(2, n + 2))
        d._save_metadata_for_disaggregation(st, period, meas, arg, b, num_meters=n, supervised=False)
        want_apps = sorted(("unknown", i - 1, (i,)) for i in ids)
    mon.equal([(t.start, t.end) for t in tfs], keep, "metadata.arguments_unchanged")
    mon.equal(sorted(st.saved), sorted(["/", "/building%d" % b]), "metadata.keys")
    root, bld = st.saved["/"][-1], st.saved["/building%d" % b][-1]
    mon.equal(root["name"], d.MODEL_NAME, "metadata.name")
    total = (keep[0][0], keep[-1][1])

    def span(x):
        return (pd.Timestamp(x["start"]), pd.Timestamp(x["end"]))
    mon.equal(span(root["timeframe"]), total, "metadata.timeframe", "the dataset's extent is not that of the disaggregated data")
    mon.equal(sorted(root["meter_devices"]), sorted([d.MODEL_NAME, "mains"]), "metadata.devices")
    for name, dev in root["meter_devices"].items():
        mon.equal((dev["model"], dev["sample_period"], dev["max_sample_period"]), (name, period, period), "metadata.device", dev=name)
        mon.equal(dev["measurements"], [dict(physical_quantity=meas[0], type=meas[1])], "metadata.measurements", dev=name)
    mon.equal(bld["instance"], b, "metadata.building")
    mon.equal(sorted(bld["elec_meters"]), sorted(ids + [1]), "metadata.meters")
    for i, e in bld["elec_meters"].items():
        mon.equal(e["data_location"], "/building%d/elec/meter%d" % (b, i), "metadata.location", meter=i)
        mon.equal(span(e["statistics"]["timeframe"]), total, "metadata.meter_timeframe", meter=i)
        mon.equal((bool(e.get("site_meter")), e.get("submeter_of"), e["device_model"]),
                  (True, None, "mains") if i == 1 else (False, 1, d.MODEL_NAME), "metadata.wiring", meter=i)
    mon.equal(sorted((a["type"], a["instance"], tuple(a["meters"])) for a in bld["appliances"]), want_apps, "metadata.appliances")
    if sup:
        mon.equal({m.instance(): m.name for m in meters if m.name}, {i: e["name"] for i, e in bld["elec_meters"].items() if "name" in e},
                  "metadata.names")
    mon.state("metadata", sup, len(ids), len(tfs), group)


# --- whole runs -----------------------------------------------------------------------------------------------------
def square_house(rng, napp, tz="Europe/London", short=False):
    """Appliances with square-wave loads; mains is their sum; gaps cut the mains into good sections."""
    d = gen.Data("legacy", tz)
    period = 60
    d.devices["m"] = gen.device("m", [ACT], period, 2 * period)
    d.devices["s"] = gen.device("s", [ACT], period, 2 * period)
    b = rng.choice([1, 2, 7])
    lens = rng.choice([[300], [150, 260], [120, 40, 210], [101, 99, 130], [60, 180]]) if short else [rng.choice([400, 600])]
    n = sum(lens)
    idx = []
    t = pd.Timestamp("2013-10-26 10:00", tz="UTC")
    for k in lens:
        idx += [t + pd.Timedelta(seconds=period * i) for i in range(k)]
        t = idx[-1] + pd.Timedelta(hours=rng.choice([1, 5]))
    idx = pd.DatetimeIndex(idx).tz_convert(tz)
    levels, cols = [], []
    for a in range(napp):
        lv = [[100 + 37 * a], [2000 + 150 * a], [300 + 40 * a, 1100 + 45 * a]][rng.randrange(3)]
        v = np.zeros(n)
        i = 0
        while i < n:
            k = rng.randrange(5, 30)
            v[i:i + k] = rng.choice([0] + lv)
            i += k
        for j, l in enumerate(lv):
            v[j * 30:j * 30 + 25] = l
        cols.append(v)
        levels.append([0] + lv)
    noise = rng.np.integers(0, 40, n) / 8.0
    frame = lambda v: pd.DataFrame(np.asarray(v, dtype=float).reshape(-1, 1), index=idx, columns=gen.mi([ACT]))
    d.meter(b, 1, frame(np.sum(cols, axis=0) + noise), "m", site=True)
    ids = rng.sample(range(2, 12), napp)
    for i, v, t in zip(ids, cols, rng.sample(["fridge", "kettle", "microwave", "light", "computer"], napp)):
        d.meter(b, i, frame(v), "s", of=1)
        d.appliance(b, t, 1, [i])
    return d, b, ids, levels


def chunks_of(path, b, **kw):
    ds = DataSet(path)
    m = ds.buildings[b].elec.mains()
    kw.setdefault("sections", m.good_sections())
    out = list(m.power_series(**kw))
    ds.store.close()
    return out


def written(path):
    with pd.HDFStore(path, "r") as st:
        return {k: st[k] for k in st.keys()}


def judge_output(mon, path, d, b, chunks, predicted, model, period, what):
    """Mains rows, index of every predicted table and the metadata of the output store."""
    got = written(path)
    want_keys = ["/building%d/elec/meter%d" % (b, i) for i in [1] + sorted(predicted)]
    mon.equal(sorted(got), sorted(want_keys), what + ".tables")
    idx = np.concatenate([gen.ns(c.index) for c in chunks])
    val = np.concatenate([c.values for c in chunks]).astype(float)
    mains = got["/building%d/elec/meter1" % b]
    mon.equal([tuple(c) for c in mains.columns], [ACT], what + ".mains_columns")
    mon.check(np.array_equal(gen.ns(mains.index), idx), what + ".mains_rows", "mains rows lost, repeated or moved",
              n=len(mains), want_n=len(idx))
    mon.check(np.allclose(mains.values.ravel().astype(float), val, rtol=1e-6, equal_nan=True), what + ".mains_values",
              got=mains.values.ravel()[:5], want=val[:5])
    for i in predicted:
        df = got["/building%d/elec/meter%d" % (b, i)]
        mon.equal([tuple(c) for c in df.columns], [ACT], what + ".columns", meter=i)
        mon.check(np.array_equal(gen.ns(df.index), idx), what + ".rows", "predictions not on the mains' instants", meter=i, n=len(df),
                  want_n=len(idx))
    ds = DataSet(path)
    elec = ds.buildings[b].elec
    mon.equal(sorted(ds.buildings), [b], what + ".buildings")
    mon.equal(sorted(m.instance() for m in elec.meters), sorted([1] + list(predicted)), what + ".meters")
    mon.equal(elec.mains().instance(), 1, what + ".mains")
    for m in elec.meters:
        mon.equal((m.device["sample_period"], m.device["model"]), (period, "mains" if m.instance() == 1 else model), what + ".device")
        tf = m.get_timeframe()
        mon.equal((tf.start.value, tf.end.value), (int(idx[0]), int(idx[-1])), what + ".extent", meter=m.instance())
    span = ds.metadata["timeframe"]
    mon.equal((pd.Timestamp(span["start"]).value, pd.Timestamp(span["end"]).value),
              (chunks[0].timeframe.start.value, chunks[-1].timeframe.end.value), what + ".dataset_extent")
    if model != "Hart85":
        mine = sorted((a["type"], a["instance"], tuple(a["meters"])) for a in d.buildings[b]["appliances"])
        have = sorted((a.identifier.type, a.identifier.instance, tuple(m.instance() for m in elec.meters if a in m.appliances))
                      for a in elec.appliances)
        mon.equal(have, mine, what + ".appliances")
    ds.store.close()
    mon.event("rows_compared", len(idx) * (1 + len(predicted)))
    return got


def w_co(mon, rng):
    d, b, ids, levels = square_house(rng, rng.randrange(1, 4), short=True)
    ds = d.open()
    path = ds.store.store.filename
    elec = ds.buildings[b].elec
    co = CombinatorialOptimisation()
    period = rng.choice([60, 120])
    co.train(elec, sample_period=60, sections=None) if rng.chance(0.5) else co.train(elec, sample_period=60)
    mon.equal(sorted(m["training_metadata"].instance() for m in co.model), sorted(ids), "co.trained_meters")
    states = {m["training_metadata"].instance(): np.asarray(m["states"], dtype=float) for m in co.model}
    for i, lv in zip(ids, levels):
        mon.check(0 in states[i], "co.off_state", meter=i)
    out = gen.scratch(".h5")
    reload_first = rng.chance(0.4)
    if reload_first:
        f = gen.scratch(".pkl")
        before = copy.deepcopy([m["states"].tolist() for m in co.model])
        co.export_model(f)
        mon.check(all(m["training_metadata"].store is elec.mains().store for m in co.model), "co.export_restores_stores")
        ds.store.close()
        co = CombinatorialOptimisation()
        co.import_model(f)
        mon.equal([m["states"].tolist() for m in co.model], before, "co.import")
        ds = DataSet(path)
        elec = ds.buildings[b].elec
    st = HDFDataStore(out, "w")
    kw = dict(sample_period=period)
    co.disaggregate(elec.mains(), st, **kw)
    st.close()
    ds.store.close()
    for m in co.model:
        m["training_metadata"].store.close()
    every = chunks_of(path, b, **kw)
    chunks = [c for c in every if len(c) >= 100]
    if not chunks:
        mon.equal(sorted(written(out)), [], "co.nothing", "chunks too short were disaggregated")
        mon.state("co", "none")
        return
    got = judge_output(mon, out, d, b, chunks, ids, "CO", period, "co")
    val = np.concatenate([c.values for c in chunks]).astype(float)
    pred = {i: got["/building%d/elec/meter%d" % (b, i)].values.ravel().astype(float) for i in ids}
    for i in ids:
        mon.check(np.isin(np.round(pred[i], 3), np.round(states[i], 3)).all(), "co.learnt_state", meter=i)
    tot = np.zeros(1)
    for i in ids:
        tot = (tot[:, None] + states[i][None, :]).ravel()
    best = np.abs(val[:, None] - tot[None, :]).min(axis=1)
    mon.check(np.allclose(np.abs(val - sum(pred.values())), best, rtol=0, atol=0.01), "co.optimal",
              "another combination of states is closer to the mains")
    mon.state("co", len(ids), len(chunks), len(every) - len(chunks), period, reload_first)


def w_fhmm(mon, rng):
    d, b, ids, levels = square_house(rng, rng.randrange(1, 3), short=True)
    ds = d.open()
    path = ds.store.store.filename
    elec = ds.buildings[b].elec
    f = FHMM()
    f.train(elec, sample_period=60, num_states_dict={m: len(levels[ids.index(m.instance())]) for m in elec.submeters().meters})
    mon.equal(sorted(m.instance() for m in f.individual), sorted(ids), "fhmm.trained_meters")
    means = {m.instance(): h.means_.round().astype(int).ravel() for m, h in f.individual.items()}
    again = rng.chance(0.5)
    if again:
        p = gen.scratch(".pkl")
        f.export_model(p)
        mon.check(all(m.store is elec.mains().store for m in f.individual), "fhmm.export_restores_stores")
        ds.store.close()
        f = FHMM()
        f.import_model(p)
        ds = DataSet(path)
        elec = ds.buildings[b].elec
        mon.equal({m.instance(): h.means_.round().astype(int).ravel().tolist() for m, h in f.individual.items()},
                  {k: v.tolist() for k, v in means.items()}, "fhmm.import")
    out = gen.scratch(".h5")
    st = HDFDataStore(out, "w")
    f.disaggregate(elec.mains(), st, sample_period=60)
    st.close()
    ds.store.close()
    for m in f.individual:
        m.store.close()
    every = chunks_of(path, b, sample_period=60)
    chunks = [c for c in every if len(c) >= f.MIN_CHUNK_LENGTH]
    if not chunks:
        mon.equal(sorted(written(out)), [], "fhmm.nothing")
        return
    got = judge_output(mon, out, d, b, chunks, ids, "FHMM", 60, "fhmm")
    for i in ids:
        v = got["/building%d/elec/meter%d" % (b, i)].values.ravel()
        mon.check(np.isin(v, means[i]).all(), "fhmm.learnt_state", "a prediction is not one of the learnt powers", meter=i,
                  got=sorted(set(v.tolist()))[:6], want=means[i])
    mon.state("fhmm", len(ids), len(chunks), len(every) - len(chunks), again)


def w_hart(mon, rng):
    d, b, ids, levels = square_house(rng, 1)
    ds = d.open()
    path = ds.store.store.filename
    elec = ds.buildings[b].elec
    h = Hart85()
    h.train(elec.mains(), columns=[ACT], sample_period=60)
    again = rng.chance(0.5)
    if again:
        p = gen.scratch(".pkl")
        h.export_model(p)
        h2 = Hart85()
        h2.import_model(p)
        mon.check(h2.centroids.equals(h.centroids) and h2.columns == h.columns and h2.transients.equals(h.transients)
                  and h2.steady_states.equals(h.steady_states) and (h2.noise_level, h2.state_threshold) == (h.noise_level, h.state_threshold),
                  "hart.import", "the imported model differs from the exported one")
        h = h2
    out = gen.scratch(".h5")
    st = HDFDataStore(out, "w")
    ret = h.disaggregate(elec.mains(), st, sample_period=60)
    st.close()
    ds.store.close()
    chunks = chunks_of(path, b, sample_period=60)
    n = len(h.centroids)
    got = judge_output(mon, out, d, b, chunks, list(range(2, n + 2)), "Hart85", 60, "hart")
    for k in range(n):
        v = got["/building%d/elec/meter%d" % (b, k + 2)].values.ravel()
        c = int(h.centroids.loc[k].values[0])
        mon.check(set(np.unique(v).tolist()) <= {0.0, float(c)}, "hart.levels", got=np.unique(v), want=c)
        mon.check(np.allclose(ret[k].values, v[-len(ret):]), "hart.returned", "returned predictions differ from those stored")
    mon.state("hart", n, len(chunks), again)


def w_refusals(mon, rng):
    d = Disaggregator()
    for name, args in (("train", (None,)), ("train_on_chunk", (None, None)), ("disaggregate", (None, None)),
                       ("disaggregate_chunk", (None,)), ("import_model", ("x",)), ("export_model", ("x",))):
        mon.raises(NotImplementedError, lambda: getattr(d, name)(*args), "refusal.abstract")
    c = rng.choice([CombinatorialOptimisation, Hart85])()
    mon.raises(RuntimeError, lambda: c._pre_disaggregation_checks({}), "refusal.untrained", "an untrained model was accepted")
    c.model = {"a": 1} if isinstance(c, Hart85) else [dict(states=np.array([0]), training_metadata=fake_meter(2, [], None))]
    s = rng.choice([1, 6, 60])
    mon.equal(c._pre_disaggregation_checks({"resample_seconds": s, "chunksize": 5}), {"sample_period": s, "chunksize": 5}, "refusal.deprecated")
    mon.equal(c._pre_disaggregation_checks({"sample_period": s}), {"sample_period": s}, "refusal.kwargs")
    co = CombinatorialOptimisation()
    v = pd.Series(np.zeros(rng.randrange(1, 99)))
    mon.raises(RuntimeError, lambda: co.disaggregate_chunk(v), "refusal.untrained")
    m = fake_meter(3, [], None)
    x = pd.Series(rng.np.choice([0.0, 500.0], 100), index=gen.rand_index(rng, 100, tz="UTC"))
    co.train_on_chunk(x, m, 3, None)
    mon.raises(RuntimeError, lambda: co.train_on_chunk(x, m, 3, None), "refusal.trained_twice")
    mon.raises(RuntimeError, lambda: co.disaggregate_chunk(v), "refusal.short_chunk")
    mon.raises(RuntimeError, lambda: co.train(None), "refusal.train_twice")
    mon.state("refusal", type(c).__name__, s)
