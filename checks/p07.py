"""P07: measurement selection."""
import itertools
import warnings

import numpy as np
import pandas as pd

from checks import gen
from nilmtk import ElecMeter
from nilmtk.elecmeter import ElecMeterID
from nilmtk.exceptions import MeasurementError
from nilmtk.measurement import AC_TYPES, check_ac_type, check_physical_quantity, measurement_columns, select_best_ac_type

WORKLOADS = [("helpers", 40, 400), ("select", 120, 1500), ("series", 60, 700), ("group", 40, 400)]
RULE = ("random sets of device measurements (with and without AC types, duplicates allowed) are stored and requested "
        "by column list, physical quantity, AC type, lists of them and 'best'; delivered columns and values are "
        "compared with a declarative model; distinct = (device columns, request)")
ASSUMPTIONS = ["quantities without AC type have no 'best' AC type (MeasurementError when nothing else is asked for)",
               "a list of physical quantities needs at least one available member"]
TECHNIQUE = "online checker of delivered columns and values against a declarative selection model"
NOTE = "Held on the executions observed; columns and values of every delivered chunk are compared."

PREF = ["active", "apparent", "reactive"]
PQS = ["power", "energy", "cumulative energy", "voltage", "current", "pf", "frequency", "power factor", "state",
       "phase angle"]


def model(cols, pq=None, ac=None):
    """Set of columns, or None for an error."""
    cols = set(cols)
    if ac is None and pq is None:
        return cols
    pqs = None if pq is None else (pq if isinstance(pq, list) else [pq])
    if ac == "best":
        out = set()
        for q in (pqs if pqs is not None else {c[0] for c in cols}):
            have = [t for p, t in cols if p == q]
            best = [t for t in PREF if t in have]
            if best:
                out.add((q, best[0]))
        return out or None
    acs = None if ac is None else (ac if isinstance(ac, list) else [ac])
    out = {c for c in cols if (pqs is None or c[0] in pqs) and (acs is None or c[1] in acs)}
    if acs is not None and set(acs) - {c[1] for c in out}:
        return None
    return out or None


def w_helpers(mon, rng):
    avail = rng.sample(PREF, rng.randrange(0, 4)) + (["weird"] if rng.chance(0.2) else [])
    rng.shuffle(avail)
    mains = rng.choice([None, rng.sample(PREF, rng.randrange(0, 4))])
    mon.note(avail, mains)
    order = PREF if mains is None else [p for p in PREF if p in mains]
    want = next((p for p in order if p in avail), None)
    if want is None:
        want = next((p for p in PREF if p in avail), None)
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        if want is None:
            mon.raises(KeyError, lambda: select_best_ac_type(avail, mains), "best.none")
        else:
            mon.equal(select_best_ac_type(list(avail), mains), want, "best.preference", available=avail, mains=mains)
    if want is not None:
        fell_back = mains is not None and not any(p in mains and p in avail for p in PREF)
        mon.equal(any(issubclass(w.category, RuntimeWarning) for w in seen), fell_back, "best.warning",
                  "a warning exactly if none of the mains' types is available", available=avail, mains=mains)
    mon.state("best", tuple(avail), None if mains is None else tuple(mains))
    for t in PREF:
        check_ac_type(t)
    for q in PQS:
        check_physical_quantity(q)
    bad = rng.choice(["", "Active", None, "power", 1])
    mon.raises(MeasurementError, lambda: check_ac_type(bad), "check_ac_type")
    bad = rng.choice(["", "Power", None, "active", 1])
    mon.raises(MeasurementError, lambda: check_physical_quantity(bad), "check_physical_quantity")
    pool = gen.COLUMNS + [("power", ""), ("energy", "volt"), ("volts", ""), ("cumulative energy", "watt"), ("cumulative energy", "")]
    cols = rng.sample(pool, rng.randrange(1, 5))
    ok = all(p in PQS and (t in PREF or p not in ("power", "energy", "cumulative energy")) for p, t in cols)
    if ok:
        m = measurement_columns(cols)
        mon.equal(list(m), cols, "measurement_columns")
        mon.equal(list(m.names), ["physical_quantity", "type"], "measurement_columns.names")
    else:
        mon.raises(MeasurementError, lambda: measurement_columns(cols), "measurement_columns.error", str(cols))


def meter_with(rng, cols, n=12, nan=0.0, dup=False):
    dev = gen.device("d", cols)
    if dup:
        dev["measurements"].append(dict(dev["measurements"][0]))
    rng.shuffle(dev["measurements"])
    df = gen.rand_frame_df(rng, n, cols, nan=nan, tz="Europe/London")
    d = gen.Data()
    d.devices["d"] = dev
    d.meter(1, 1, df, "d", site=True)
    d.appliance(1, "fridge", 1, [1])
    ds = d.open()
    return ds, ds.buildings[1].elec[1], df


def rand_request(rng, cols):
    kw = {}
    have_pq = sorted({c[0] for c in cols})
    if rng.chance(0.7):
        k = rng.randrange(3)
        if k == 0:
            kw["physical_quantity"] = rng.choice(have_pq)
        elif k == 1:
            kw["physical_quantity"] = rng.choice(PQS)
        else:
            kw["physical_quantity"] = rng.sample(PQS, 2) + [rng.choice(have_pq)]
    if rng.chance(0.7):
        kw["ac_type"] = rng.choice(["best", "best", rng.choice(PREF), rng.choice(PREF), rng.sample(PREF, 2)])
    return kw


def w_select(mon, rng):
    cols = rng.sample(gen.COLUMNS, rng.randrange(1, 7))
    ds, meter, df = meter_with(rng, cols, dup=rng.chance(0.15))
    try:
        mon.equal(set(meter.available_columns()), set(cols), "available_columns")
        mon.equal(len(meter.available_columns()), len(set(cols)), "available_columns.unique")
        mon.equal(set(meter.available_physical_quantities()), {c[0] for c in cols}, "available_physical_quantities")
        for q in PQS:
            mon.equal(set(meter.available_ac_types(q)), {t for p, t in cols if p == q and t}, "available_ac_types", q=q)
        two = rng.sample(PQS, 2)
        mon.equal(set(meter.available_ac_types(two)), {t for p, t in cols if p in two and t}, "available_ac_types.list")
        mon.raises(ValueError, lambda: meter.available_ac_types("powr"), "available_ac_types.invalid")
        for _ in range(5):
            kw = rand_request(rng, cols)
            want = model(cols, kw.get("physical_quantity"), kw.get("ac_type"))
            mon.note(cols, kw, want)
            mon.state(tuple(sorted(cols)), repr(sorted(kw.items())))
            if want is None:
                mon.raises(MeasurementError, lambda: list(meter.load(**kw)), "load.unavailable", repr((cols, kw)))
                continue
            chunks = list(meter.load(**kw))
            mon.equal(len(chunks), 1, "load.one_chunk")
            got = chunks[0]
            mon.equal(sorted(map(tuple, got.columns)), sorted(want), "load.columns", request=kw, device=cols)
            for c in want:
                mon.check(np.array_equal(got[c].values, df[c].values, equal_nan=True), "load.values",
                          "values of %s" % (c,))
        sub = rng.sample(cols, rng.randrange(1, len(cols) + 1))
        got = list(meter.load(columns=sub))[0]
        mon.equal(sorted(map(tuple, got.columns)), sorted(sub), "load.columns_list")
        for c in sub:
            mon.check(np.array_equal(got[c].values, df[c].values, equal_nan=True), "load.columns_values")
        other = [c for c in gen.COLUMNS if c not in cols]
        if other:
            mon.raises(MeasurementError, lambda: list(meter.load(columns=sub + [rng.choice(other)])),
                       "load.columns_unavailable")
        mon.raises(ValueError, lambda: list(meter.load(columns=sub, ac_type="active")), "load.columns_and_ac_type")
    finally:
        ds.store.close()


def w_series(mon, rng):
    cols = rng.sample(gen.COLUMNS, rng.randrange(1, 6))
    nan = rng.choice([0, 0.2])
    ds, meter, df = meter_with(rng, cols, nan=nan)
    try:
        for q in sorted({c[0] for c in cols}):
            mine = [c for c in cols if c[0] == q]
            got = list(meter.load_series(physical_quantity=q))
            mon.equal(len(got), 1, "load_series.chunks")
            s = got[0]
            mon.check(isinstance(s, pd.Series), "load_series.type", type=type(s))
            want = df[mine].values.sum(axis=1)
            mon.close(s.values, want, "load_series.sum_of_ac_types", pq=q)
            mon.equal(s.name[0], q, "load_series.name")
            mon.equal(set(s.name[1].split("+")), {c[1] for c in mine}, "load_series.name_types")
            mon.state(q, len(mine), nan)
        have = [t for p, t in cols if p == "power"]
        if have:
            best = next(t for t in PREF if t in have)
            s = meter.power_series_all_data()
            mon.equal(s.name, ("power", best), "power_series.best")
            mon.check(np.array_equal(s.values, df[("power", best)].values, equal_nan=True), "power_series.values")
            ask = rng.choice(have)
            s = meter.power_series_all_data(ac_type=ask)
            mon.equal(s.name, ("power", ask), "power_series.ac_type")
            mon.check(np.array_equal(s.values, df[("power", ask)].values, equal_nan=True), "power_series.values")
        else:
            mon.raises(MeasurementError, lambda: list(meter.power_series()), "power_series.none")
    finally:
        ds.store.close()


def w_group(mon, rng):
    """Group listings are the unions of the members'."""
    d = gen.Data()
    per = []
    for i in range(1, rng.randrange(2, 5)):
        cols = rng.sample(gen.COLUMNS, rng.randrange(1, 5))
        d.devices["d%d" % i] = gen.device("d%d" % i, cols)
        d.meter(1, i, gen.rand_frame_df(rng, 4, cols), "d%d" % i, of=1, site=i == 1)
        d.appliance(1, "fridge", i, [i])
        per.append(cols)
    ds = d.open()
    try:
        e = ds.buildings[1].elec
        allc = {c for cols in per for c in cols}
        mon.equal(set(e.available_physical_quantities()), {c[0] for c in allc}, "group.physical_quantities")
        for q in PQS:
            mon.equal(set(e.available_ac_types(q)), {t for p, t in allc if p == q and t}, "group.ac_types")
        mon.state(len(per), len(allc))
    finally:
        ds.store.close()
