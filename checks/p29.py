"""P29: dataset converters keep every raw sample."""
import contextlib
import gzip
import os
import sys
import types

import numpy as np
import pandas as pd
import yaml

from checks import gen
from nilmtk import DataSet
from nilmtk.dataset_converters import (convert_ampds, convert_combed, convert_dred, convert_eco, convert_greend, convert_hes,
                                       convert_iawe, convert_ideal, convert_redd, convert_refit, convert_smart, convert_ukdale)
from nilmtk.utils import get_datastore
from nilmtk.dataset_converters.combed import convert_combed as combed_mod
from nilmtk.dataset_converters.dataport import csv_converter as dataport
from nilmtk.dataset_converters.hipe.convert_hipe import convert_hipe

WORKLOADS = [("redd", 10, 120), ("ukdale", 8, 90), ("refit", 1, 8), ("dred", 6, 60), ("ampds", 8, 90), ("eco", 1, 6),
             ("combed", 4, 40), ("greend", 8, 90), ("iawe", 1, 8), ("ideal", 8, 90), ("smart", 4, 40), ("hipe", 4, 40),
             ("hes", 4, 40), ("dataport", 6, 60), ("deddiag", 3, 30), ("caxe", 4, 40)]
RULE = ("random raw directories in the published layout of each data set (unsorted rows, repeated time stamps, missing values, missing "
        "channels, clock changes, stray files) are converted; the set of tables, every time stamp, value, unit and column name in the "
        "output and the extents of the opened dataset are compared with the raw files; distinct = (converter, format, #tables, oddities)")
ASSUMPTIONS = ["raw files follow the layout named in each converter's documentation", "values may be kept as 32-bit floats",
               "rows that share a time stamp may be reordered"]
TECHNIQUE = "conservation monitor: rows written to the store vs rows of the raw files, per channel"
NOTE = "Held on the conversions observed; every row of every table is compared."
NAMES = ["physical_quantity", "type"]


def mk(*p):
    d = os.path.join(*p)
    os.makedirs(d, exist_ok=True)
    return d


def write(path, text):
    with open(path, "w") as f:
        f.write(text)


def stamps(rng, n, start=None, period=6, dups=0, shuffle=0, sub=False):
    """Unix seconds, optionally unsorted and repeated."""
    start = start or rng.choice([1303132929, 1382833800, 1383457000, 1396139000])
    t = start + np.cumsum(rng.np.integers(1, 3, n)) * period
    t = [int(x) for x in t]
    for _ in range(dups):
        i = rng.randrange(n - 1)
        t[i + 1] = t[i]
    if shuffle and n > 4:
        i = rng.randrange(1, n - 2)
        t = t[i:] + t[:i]
    return t


def vals(rng, n):
    return [rng.randrange(0, 30000) / 8.0 for _ in range(n)]


def tables(path, fmt="HDF"):
    out = {}
    if fmt == "HDF":
        with pd.HDFStore(path, "r") as st:
            for k in st.keys():
                out[k] = st[k]
    else:
        st = get_datastore(path, "CSV")
        for b in os.listdir(path):
            for m in (os.listdir(os.path.join(path, b, "elec")) if b.startswith("building") else []):
                k = "/%s/elec/%s" % (b, m.split(".")[0])
                out[k] = st[k]
    return out


def pairs(ns, v):
    a = np.empty(len(ns), dtype=[("t", "i8")] + [("v%d" % j, "f4") for j in range(np.shape(v)[1])])
    a["t"] = ns
    for j in range(np.shape(v)[1]):
        a["v%d" % j] = np.asarray(v)[:, j]
    return np.sort(a)


def judge(mon, path, want, tz, what, check_sorted=True, exact_order=False, fmt="HDF", rtol=1e-6):
    """want: {(building, meter): (columns, seconds (list of numbers), values (n x k))}"""
    got = tables(path, fmt)
    keys = {"/building%d/elec/meter%d" % k for k in want}
    mon.equal(sorted(got), sorted(keys), what + ".tables", "the channels converted are not those of the raw data")
    for k, (cols, secs, v) in want.items():
        df = got["/building%d/elec/meter%d" % k]
        mon.equal([tuple(c) for c in df.columns], [tuple(c) for c in cols], what + ".columns", key=k)
        mon.equal(list(df.columns.names), NAMES, what + ".level_names", key=k)
        mon.equal(str(df.index.tz), tz, what + ".zone", key=k)
        ns = np.array([int(round(float(s) * 1e6)) * 1000 for s in secs], dtype=np.int64)
        v = np.asarray(v, dtype=float).reshape(len(ns), len(cols))
        mon.equal(len(df), len(ns), what + ".rows", "rows lost or invented", key=k)
        gns = (gen.ns(df.index) + 500) // 1000 * 1000
        if check_sorted:
            mon.check(bool(np.all(np.diff(gns) >= 0)), what + ".sorted", key=k)
        if exact_order:
            mon.check(np.array_equal(gns, ns), what + ".order", key=k)
            mon.check(np.allclose(df.values.astype(float), v, rtol=rtol, equal_nan=True), what + ".values", key=k)
        else:
            a, b = pairs(gns, df.values), pairs(ns, v)
            mon.check(np.array_equal(a["t"], b["t"]), what + ".times", "time stamps differ from the raw file", key=k,
                      got=a["t"][:5], want=b["t"][:5])
            for j in range(len(cols)):
                # rows with the same time stamp may be reordered: compare sorted values within
                mon.check(np.allclose(a["v%d" % j], b["v%d" % j], rtol=rtol, atol=1e-6, equal_nan=True), what + ".values",
                          "values differ from the raw file", key=k, column=cols[j], got=a["v%d" % j][:6], want=b["v%d" % j][:6])
        mon.event("rows_compared", len(ns))


def opens(mon, path, want, what, meters=True):
    """The output opens as a dataset whose meters have the extents of the raw data."""
    ds = DataSet(path)
    for (b, m), (cols, secs, v) in want.items():
        if b not in ds.buildings:
            mon.check(False, what + ".building", "building missing after conversion", building=b)
        inst = {x.instance(): x for x in ds.buildings[b].elec.all_meters() if not isinstance(x.instance(), tuple)}
        for g in ds.buildings[b].elec.all_meters():
            for x in getattr(g, "meters", []):
                inst[x.instance()] = x
        if m in inst and len(set(secs)) > 1:
            tf = inst[m].get_timeframe()
            mon.close([tf.start.value / 1e9, tf.end.value / 1e9], [min(secs), max(secs)], what + ".extent", rtol=0, atol=1e-5, key=(b, m))
            mon.event("meters_opened")
    ds.store.close()


def redd_like(rng, root, houses, nchan, sort=True, dups=True):
    raw = {}
    for h in houses:
        d = mk(root, "house_%d" % h)
        write(os.path.join(d, "labels.dat"), "1 mains\n")
        for c in nchan[h]:
            n = rng.choice([2, 5, 30])
            t = stamps(rng, n, dups=rng.choice([0, 2]) if dups and n > 2 else 0, shuffle=sort and rng.chance(0.4))
            v = vals(rng, n)
            write(os.path.join(d, "channel_%d.dat" % c), "".join("%d %.3f\n" % p for p in zip(t, v)))
            raw[h, c] = (t, v)
        write(os.path.join(d, "channel_1_button_press.dat"), "1 2\n")
        write(os.path.join(d, "notes_channel_7.dat"), "1 2\n")
    return raw


def w_redd(mon, rng):
    root = mk(gen.scratch("redd"))
    houses = rng.sample(range(1, 7), rng.randrange(1, 4))
    raw = redd_like(rng, root, houses, {h: rng.sample(range(1, 25), rng.randrange(1, 4)) for h in houses})
    mk(root, "house_a")
    write(os.path.join(root, "readme.txt"), "x")
    fmt = rng.choice(["HDF", "HDF", "CSV"])
    out = gen.scratch(".h5" if fmt == "HDF" else "redd_csv")
    convert_redd(root, out, format=fmt)
    want = {k: ([("power", "apparent" if k[1] <= 2 else "active")], t, v) for k, (t, v) in raw.items()}
    judge(mon, out, want, "US/Eastern" if fmt == "HDF" else "UTC", "redd", fmt=fmt)
    mon.state("redd", fmt, len(houses), len(raw), any(len(set(t)) < len(t) for t, v in raw.values()))
    mon.raises(IOError, lambda: convert_redd(os.path.join(root, "nowhere"), gen.scratch(".h5")), "redd.no_directory")


def w_ukdale(mon, rng):
    root = mk(gen.scratch("ukdale"))
    houses = rng.sample(range(1, 6), rng.randrange(1, 3))
    chans = {h: [1] + rng.sample(range(2, 60), rng.randrange(1, 4)) for h in houses}
    raw = redd_like(rng, root, houses, chans, sort=False)
    md = mk(root, "metadata")
    write(os.path.join(md, "dataset.yaml"), yaml.dump(dict(name="UK-DALE", timezone="Europe/London")))
    write(os.path.join(md, "meter_devices.yaml"), yaml.dump(dict(
        EcoManagerWholeHouseTx=gen.device("EcoManagerWholeHouseTx", [("power", "apparent")], 6, 120),
        EcoManagerTxPlug=gen.device("EcoManagerTxPlug", [("power", "active")], 6, 120),
        SoundCardPowerMeter=gen.device("SoundCardPowerMeter", [("power", "active"), ("power", "apparent"), ("voltage", "")], 1, 30))))
    drop = rng.chance(0.7)
    want = {}
    for h in houses:
        em = {}
        onesec = rng.chance(0.5)
        for c in chans[h]:
            em[c] = dict(device_model="EcoManagerWholeHouseTx" if c == 1 else "EcoManagerTxPlug")
            em[c].update(dict(site_meter=True) if c == 1 else dict(submeter_of=1))
            t, v = raw[h, c]
            if drop:
                seen, tt, vv = set(), [], []
                for a, b in zip(t, v):
                    if a not in seen:
                        seen.add(a)
                        tt.append(a)
                        vv.append(b)
                t, v = tt, vv
            want[h, c] = ([("power", "apparent" if c == 1 else "active")], t, v)
        if onesec:
            m = max(chans[h]) + 1
            em[m] = dict(device_model="SoundCardPowerMeter", site_meter=True)
            if rng.chance(0.5):
                em[1]["disabled"] = True
            n = rng.choice([3, 40])
            t = [x + rng.choice([0.0, 0.1, 0.25]) for x in stamps(rng, n, period=1)]
            v = [vals(rng, n) for _ in range(3)]
            write(os.path.join(root, "house_%d" % h, "mains.dat"), "".join("%.2f %.3f %.3f %.3f\n" % p for p in zip(t, *v)))
            want[h, m] = ([("power", "active"), ("power", "apparent"), ("voltage", "")], t, np.array(v).T)
        write(os.path.join(md, "building%d.yaml" % h), yaml.dump(dict(instance=h, elec_meters=em, appliances=[
            dict(type="fridge", instance=i, meters=[c]) for i, c in enumerate(chans[h][1:], 1)])))
    before = sorted(os.listdir(md))
    out = gen.scratch(".h5")
    convert_ukdale(root, out, drop_duplicates=drop)
    judge(mon, out, want, "Europe/London", "ukdale", exact_order=True)
    mon.equal(sorted(os.listdir(md)), before, "ukdale.raw_unchanged", "files were left in the raw directory")
    opens(mon, out, want, "ukdale")
    mon.state("ukdale", len(houses), len(want), drop)


def w_refit(mon, rng):
    root = mk(gen.scratch("refit"))
    clean = rng.chance(0.5)
    want = {}
    cols = ["Aggregate"] + ["Appliance%d" % i for i in range(1, 10)]
    for nb, h in enumerate([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 19, 20, 21], 1):
        n = rng.choice([2, 5])
        n = rng.choice([2, 5, 12])
        t = stamps(rng, n, shuffle=rng.chance(0.3), dups=0 if rng.chance(0.6) else rng.randrange(1, 3))
        v = rng.np.integers(-3 if rng.chance(0.3) else 0, 3000, (n, 10))
        order = cols if rng.chance(0.7) else rng.sample(cols, 10)
        with open(os.path.join(root, ("CLEAN_House%d.csv" if clean else "House_%d.csv") % h), "w") as f:
            f.write("Time,Unix," + ",".join(order) + ",Issues\n")
            for a, r in zip(t, v):
                row = dict(zip(cols, r))
                f.write("2013-10-09 13:06:17,%d,%s,0\n" % (a, ",".join(str(row[c]) for c in order)))
        for m, c in enumerate(order, 1):
            want[nb, m] = ([("power", "active")], t, v[:, cols.index(c)].reshape(-1, 1))
    out = gen.scratch(".h5")
    convert_refit(root, out)
    judge(mon, out, want, "Europe/London", "refit")
    opens(mon, out, {k: w for k, w in want.items() if k[0] in (1, 14, 20)}, "refit")
    mon.state("refit", clean)


def w_dred(mon, rng):
    n = rng.choice([2, 20, 100])
    t = stamps(rng, n, start=rng.choice([1436133600, 1445733000]), period=rng.choice([1, 60]), shuffle=rng.chance(0.3))
    v = rng.np.integers(0, 24000, (n, 13)) / 8.0
    path = gen.scratch(".csv")
    local = rng.chance(0.5)
    with open(path, "w") as f:
        f.write("a\nb\nTimestamp," + ",".join("c%d" % i for i in range(13)) + "\n")
        for a, r in zip(t, v):
            ts = pd.Timestamp(a, unit="s", tz="UTC").tz_convert("Europe/Amsterdam" if local else "UTC")
            f.write(str(ts) + "," + ",".join("%.3f" % x for x in r) + "\n")
    want = {(1, m + 1): ([("power", "apparent")], t, v[:, m].reshape(-1, 1)) for m in range(13)}
    out = gen.scratch(".h5")
    convert_dred(path, out)
    judge(mon, out, want, "Europe/Amsterdam", "dred")
    opens(mon, out, want, "dred")
    mon.state("dred", n, local)


def w_ampds(mon, rng):
    root = mk(gen.scratch("ampds"))
    files = ["WHE.csv"] + rng.sample(["B1E.csv", "B2E.csv", "BME.csv", "CDE.csv", "CWE.csv", "DNE.csv", "FGE.csv", "ZZZ.csv"], rng.randrange(1, 4))
    cols = ["V", "I", "f", "DPF", "APF", "P", "Pt", "Q", "Qt", "S", "St"]
    names = dict(V=("voltage", ""), I=("current", ""), f=("frequency", ""), DPF=("power factor", "real"), APF=("power factor", "apparent"),
                 P=("power", "active"), Pt=("energy", "active"), Q=("power", "reactive"), Qt=("energy", "reactive"),
                 S=("power", "apparent"), St=("energy", "apparent"))
    raw = {}
    for fn in files:
        n = rng.choice([3, 30])
        t = stamps(rng, n, start=1333263600, period=60)
        v = rng.np.integers(0, 8000, (n, len(cols))) / 8.0
        order = rng.sample(range(len(cols)), len(cols))
        miss = rng.randrange(n) if rng.chance(0.3) and n > 3 else None
        with open(os.path.join(root, fn), "w") as f:
            f.write("TS," + ",".join(" %s " % cols[j] for j in order) + "\n")
            for i, (a, r) in enumerate(zip(t, v)):
                cells = [" %.3f" % r[j] for j in order]
                if i == miss:
                    cells[2] = ""
                f.write("%d,%s\n" % (a, ",".join(cells)))
        keep = [i for i in range(n) if i != miss]
        raw[fn] = ([names[cols[j]] for j in order], [t[i] for i in keep], v[np.ix_(keep, order)])
    write(os.path.join(root, "notes.txt"), "x")
    order = ["WHE.csv"] + sorted(f for f in files if f != "WHE.csv")
    want = {(1, i): raw[f] for i, f in enumerate(order, 1)}
    out = gen.scratch(".h5")
    convert_ampds(root, out)
    judge(mon, out, want, "America/Vancouver", "ampds")
    opens(mon, out, want, "ampds")
    mon.state("ampds", len(files), any(len(w[1]) not in (3, 30) for w in raw.values()))


def w_eco(mon, rng):
    root = mk(gen.scratch("eco"))
    b = rng.randrange(1, 7)
    tz = rng.choice(["CET", "GMT"])
    want = {}
    days = ["2012-06-01", rng.choice(["2012-06-02", "2012-06-04"])][:rng.randrange(1, 3)]
    sm = mk(root, "%02d_sm_csv" % b, "%02d" % b)
    parts = {}
    S = 86400
    for day in days:
        t0 = pd.Timestamp(day, tz="GMT").value // 10 ** 9
        a = (rng.np.integers(0, 4000, (S, 16)) / 8.0).astype(np.float32)
        a[:, 13:] = rng.np.integers(0, 80, (S, 3))
        for p in (1, 2, 3):
            a[rng.np.random(S) < 0.001, p] = -1
        pd.DataFrame(a).to_csv(os.path.join(sm, day + ".csv"), header=False, index=False)
        for p in (1, 2, 3):
            act = a[:, p].astype(float)
            ok = act != -1
            q = act * np.tan(a[:, 12 + p].astype(float) * np.pi / 180)
            v = np.column_stack([act, a[:, 4 + p], a[:, 7 + p], a[:, 12 + p], q])[ok]
            parts.setdefault((b, p), []).append((t0 + np.arange(S)[ok], v))
    nested = rng.chance(0.5)
    plugs = mk(root, "%02d_plugs_csv" % b, *(["%02d" % b] if nested else []))
    for k in range(1, 4):
        d = mk(plugs, "%02d" % k)
        for day in days:
            t0 = pd.Timestamp(day, tz="GMT").value // 10 ** 9
            v = rng.np.integers(0, 8000, S) / 8.0
            v[rng.np.random(S) < 0.001] = -1
            pd.Series(v).to_csv(os.path.join(d, day + ".csv"), header=False, index=False)
            ok = v != -1
            parts.setdefault((b, 3 + k), []).append((t0 + np.arange(S)[ok], v[ok].reshape(-1, 1)))
    smcols = [("power", "active"), ("current", ""), ("voltage", ""), ("phase_angle", ""), ("power", "reactive")]
    for k, ps in parts.items():
        want[k] = (smcols if k[1] <= 3 else [("power", "active")], np.concatenate([p[0] for p in ps]), np.vstack([p[1] for p in ps]))
    out = gen.scratch(".h5")
    convert_eco(root, out, tz)
    judge(mon, out, want, tz, "eco", rtol=1e-4)
    mon.state("eco", tz, len(days), nested)


def w_combed(mon, rng):
    root = mk(gen.scratch("combed"))
    base = mk(root, "iiitd") if rng.chance(0.5) else root
    acad = {'Building Total Mains': {'0': 1}, 'Lifts': {'0': 2}, 'Floor Total': {'1': 3, '2': 4, '3': 5, '4': 6, '5': 7},
            'AHU': {'0': 8, '1': 9, '2': 10, '5': 11}, 'Light': {'3': 12}, 'Power Sockets': {'3': 13}, 'UPS Sockets': {'3': 14}}
    lect = {'Building Total Mains': {'0': 1}, 'Floor Total': {'0': 2, '1': 3, '2': 4}, 'AHU': {'1': 5, '2': 6, '3': 7}}
    want = {}
    every = [(b, name, load, wing, m) for b, name, mp in ((1, 'Academic Block', acad), (2, 'Lecture Block', lect))
             for load, ws in mp.items() for wing, m in ws.items()]
    for b, name, load, wing, m in rng.sample(every, rng.randrange(1, 6)):
        d = mk(base, name, load, wing)
        n = rng.choice([3, 25])
        t = [x + rng.choice([0, 0.5, 0.125]) for x in stamps(rng, n, start=1401561000, period=30)]
        v = rng.np.integers(0, 8000, (n, 3)) / 8.0
        for j, a in enumerate(["Power", "Energy", "Current"]):
            write(os.path.join(d, a + ".csv"), "".join("%d,%.3f\n" % (round(x * 1000), y) for x, y in zip(t, v[:, j])))
        want[b, m] = ([("power", "active"), ("energy", "active"), ("current", "")], t, v)
    out = gen.scratch(".h5")
    convert_combed(root, out)
    judge(mon, out, want, "Asia/Kolkata", "combed")
    opens(mon, out, want, "combed")
    mon.state("combed", len(want), base != root)
    empty = mk(gen.scratch("combed"))
    mon.raises(RuntimeError, lambda: convert_combed(empty, gen.scratch(".h5")), "combed.nothing_found")


def w_greend(mon, rng):
    root = mk(gen.scratch("greend"))
    nb = rng.randrange(1, 3)
    want = {}
    for b in range(nb):
        d = mk(root, "building%d" % b)
        ids = ["000D6F00029C%04d" % rng.randrange(10000) for _ in range(rng.randrange(1, 4))]
        rows, columns = {}, []
        days = ["2013-12-%02d" % k for k in rng.sample(range(1, 29), rng.randrange(1, 4))]
        for day in sorted(days):
            t0 = pd.Timestamp(day, tz="CET").value // 10 ** 9
            text, header = "", None
            t = t0
            for _ in range(rng.randrange(1, 4)):
                cols = ids if rng.chance(0.6) else rng.sample(ids, len(ids))
                new = rng.chance(0.2)
                if new:
                    ids = ids + ["000D6F00F%07d" % rng.randrange(10 ** 7)]
                    cols = ids
                text += "timestamp," + ",".join(cols) + "\n"
                for c in cols:
                    if c not in columns:
                        columns.append(c)
                for _ in range(rng.choice([1, 5, 20])):
                    t += rng.choice([1, 1, 2])
                    ts = t + rng.choice([0, 0.25, 0.5])
                    v = [rng.randrange(8000) / 8.0 if not rng.chance(0.1) else None for _ in cols]
                    text += "%.6f,%s\n" % (ts, ",".join("NULL" if x is None else "%.3f" % x for x in v))
                    rows[ts] = dict(zip(cols, v))
            if rng.chance(0.2):
                text = "\0" + text
            write(os.path.join(d, "dataset_%s.csv" % day), text)
        for m, c in enumerate(columns, 1):
            ts = sorted(rows)
            v = [[np.nan if rows[x].get(c) is None else rows[x][c]] for x in ts]
            want[b + 1, m] = ([("power", "active")], ts, v)
    write(os.path.join(root, "readme.txt"), "x")
    out = gen.scratch(".h5")
    mp = rng.chance(0.25)
    # order in which the file system lists the files must not matter
    import nilmtk.dataset_converters.greend.convert_greend as mod
    real = mod.listdir
    mod.listdir = lambda p: rng.sample(sorted(real(p)), len(real(p)))
    try:
        convert_greend(root, out, use_mp=mp)
    finally:
        if real is not None:
            mod.listdir = real
    judge(mon, out, want, "CET", "greend")
    mon.state("greend", nb, len(want), mp)


def w_iawe(mon, rng):
    root = mk(gen.scratch("iawe"))
    d = mk(root, "electricity")
    idx = pd.date_range("2013-07-13", "2013-08-04", freq="1min", tz="GMT")
    t0 = idx[0].value // 10 ** 9
    want = {}
    sets = [["W", "VA", "VAR", "f", "VLN", "PF", "A"], ["W", "VAR", "VA", "f", "V", "PF", "A"]]
    names = dict(W=("power", "active"), VA=("power", "apparent"), VAR=("power", "reactive"), f=("frequency", ""), VLN=("voltage", ""),
                 V=("voltage", ""), PF=("pf", ""), A=("current", ""))
    for chan in range(1, 12):
        cols = sets[chan > 2]
        n = rng.choice([40, 200])
        t = t0 + np.cumsum(rng.np.integers(1, 400, n))
        v = rng.np.integers(1, 8000, (n, len(cols))) / 8.0
        with open(os.path.join(d, "%d.csv" % chan), "w") as f:
            f.write("timestamp," + ",".join(cols) + "\n")
            for i, (a, r) in enumerate(zip(t, v)):
                f.write("%d,%s\n" % (a, ",".join("%.3f" % x for x in r)))
                if i % 17 == 3:
                    f.write("%d,%s\n" % (a, ",".join("9999" for x in r)))   # repeated time stamp: the first one counts
                if i % 23 == 5:
                    f.write("%d,%s\n" % (a + 0.0 if False else t[-1] + i, ",".join("\\N" for x in r)))  # missing values
        sums, cnt = {}, {}
        for a, r in zip(t, v):
            k = int((a - t0) // 60)
            sums[k] = sums.get(k, 0) + r
            cnt[k] = cnt.get(k, 0) + 1
        last = max(sums)
        med = np.median(np.array([sums[k] / cnt[k] for k in sorted(sums)]), axis=0)
        power = np.array([names[c][0] == "power" for c in cols])
        full = np.tile(np.where(power, 0.0, med), (len(idx), 1))
        for k in sums:
            full[k] = sums[k] / cnt[k]
        want[1, chan] = ([names[c] for c in cols], idx.as_unit("ns").asi8 // 10 ** 9, full)
    out = gen.scratch(".h5")
    convert_iawe(root, out)
    judge(mon, out, want, "Asia/Kolkata", "iawe", rtol=1e-4)
    opens(mon, out, want, "iawe")
    mon.state("iawe", len(want))


def w_ideal(mon, rng):
    root = mk(gen.scratch("ideal"))
    hs, rs = mk(root, "household_sensordata"), mk(root, "rooms_appliance_sensordata")
    want = {}
    homes = rng.sample([61, 62, 65, 73, 90, 96, 105, 106], rng.randrange(1, 4))
    sensor = 100
    for h in homes:
        mains, apps = rng.chance(0.8), rng.chance(0.8)
        for kind, here, folder in (("electric-mains", mains, hs), ("electric-appliance", apps, rs)):
            if not here:
                continue
            for _ in range(1 if kind == "electric-mains" else rng.randrange(1, 3)):
                sensor += 1
                n = rng.choice([2, 30])
                t = stamps(rng, n, start=1475000000, period=1, dups=rng.choice([0, 2]) if n > 2 else 0, shuffle=rng.chance(0.3))
                v = vals(rng, n)
                sid = "%dc%d" % (sensor, sensor + 1) if kind == "electric-mains" else str(sensor)
                name = "home%d_room%d_sensor%s_%s_%s.csv.gz" % (h, 700 + h, sid, kind, "electric-combined" if kind == "electric-mains" else "kettle")
                with gzip.open(os.path.join(folder, name), "wt") as f:
                    for a, x in zip(t, v):
                        f.write("%s,%.3f\n" % (pd.Timestamp(a, unit="s"), x))
                if kind == "electric-mains":
                    sensor += 1
                if mains and apps:
                    m = int(sid.split("c")[0])
                    want[h, m] = ([("power", "apparent" if kind == "electric-mains" else "active")], t, v)
        with gzip.open(os.path.join(hs, "home%d_hall%d_sensor%d_gas-pulse_gas.csv.gz" % (h, 1, sensor + 500)), "wt") as f:
            f.write("2016-09-27 00:00:00,1\n")
    if not want:
        return
    out = gen.scratch(".h5")
    convert_ideal(root, out)
    judge(mon, out, want, "Europe/London", "ideal")
    mon.state("ideal", len(homes), len(want))


def w_smart(mon, rng):
    root = mk(gen.scratch("smart"))
    want = {}
    for b, h in enumerate("ABC", 1):
        years = sorted(rng.sample(["2014", "2015", "2016"], rng.randrange(1, 4)))
        use = rng.choice(["use [kW]", "Usage [kW]"])
        apps = ["Furnace [kW]", "Lights [kW]", "Dryer [kW]"][:rng.randrange(1, 4)]
        rows = []
        cut = rng.randrange(1, len(apps) + 1)
        for y in years:
            d = mk(root, "Home" + h, y)
            n = rng.choice([3, 20])
            t = [pd.Timestamp(y + "-01-01") + pd.Timedelta(minutes=30 * i) for i in range(n)]
            v = rng.np.integers(0, 8000, (n, 1 + len(apps))) / 1024.0
            for k, cols in enumerate([apps[:cut], apps[cut:]]):
                if k and not cols:
                    continue
                name = "Home%s-meter%d" % (h, 2 + k)
                with open(os.path.join(d, "%s_%s.csv" % (name, y)), "w") as f:
                    f.write("Date & Time,%s,gen [kW],%s\n" % (use, ",".join(cols)))
                    for i in range(n):
                        f.write("%s,%.10f,0,%s\n" % (t[i], v[i, 0], ",".join("%.10f" % v[i, 1 + apps.index(c)] for c in cols)))
                write(os.path.join(d, name + ".txt"), "%s\nfoo\n30 minutes\nend\n" % name)
            write(os.path.join(d, "other.txt"), "Home%s-meter9\nfoo\n1 minute\nend\n" % h)
            rows.append((t, v))
        tt = [x.value // 10 ** 9 for t, _ in rows for x in t]
        vv = np.vstack([v for _, v in rows]) * 1000
        for m in range(1 + len(apps)):
            want[b, m + 1] = ([("power", "active")], tt, vv[:, m].reshape(-1, 1))
    out = gen.scratch(".h5")
    import nilmtk.dataset_converters.smart.convert_smart as mod
    real = getattr(mod, "listdir", None)
    if real is not None:
        mod.listdir = lambda p: rng.sample(sorted(real(p)), len(real(p)))
    cwd = os.getcwd()
    try:
        convert_smart(root, out)
        mon.equal(os.getcwd(), cwd, "smart.cwd", "the converter changed the working directory")
    finally:
        if real is not None:
            mod.listdir = real
        os.chdir(cwd)
    got = tables(out)
    # the two files of a year may be listed in any order, so appliances are compared as a set per house
    for b in (1, 2, 3):
        w = {m: x for (bb, m), x in want.items() if bb == b}
        g = {m: got.get("/building%d/elec/meter%d" % (b, m)) for m in w}
        mon.check(all(x is not None for x in g.values()), "smart.tables", building=b)
        mon.equal(sum(k.startswith("/building%d/" % b) for k in got), len(w), "smart.tables", building=b)
        cols = lambda a: sorted(tuple(np.round(x, 3)) for x in a)
        for m, df in g.items():
            mon.check(bool(np.all(np.diff(gen.ns(df.index)) > 0)), "smart.sorted", building=b, meter=m)
            mon.equal(len(df), len(w[m][1]), "smart.rows", building=b)
        mon.check(np.allclose(g[1].values.ravel(), np.ravel(w[1][2]), rtol=1e-5), "smart.mains", building=b, got=g[1].values.ravel()[:4],
                  want=np.ravel(w[1][2])[:4])
        gs = np.array(cols([df.values.ravel() for m, df in g.items() if m > 1]))
        ws = np.array(cols([np.ravel(x[2]) for m, x in w.items() if m > 1]))
        mon.check(np.allclose(gs, ws, rtol=1e-4, atol=2e-3), "smart.values", building=b)
    mon.state("smart", len(want))


def w_hipe(mon, rng):
    root = mk(gen.scratch("hipe"))
    want = {}
    names = ["MainTerminal", "ChipPress", "ChipSaw", "HighTemperatureOven", "PickAndPlaceUnit", "ScreenPrinter", "SolderingOven",
             "VacuumOven", "VacuumPump1", "VacuumPump2", "WashingMachine"]
    for m, name in enumerate(names, 1):
        n = rng.choice([2, 30])
        t = stamps(rng, n, start=rng.choice([1508000000, 1509235200]), period=5, shuffle=rng.chance(0.3))
        v = rng.np.integers(-200, 8000, n) / 1024.0
        with open(os.path.join(root, "%s_PhaseCount_3_geq_2017-10-01_lt_2018-01-01.csv" % name), "w") as f:
            f.write("Machine,SensorDateTime,P_kW,Q_kvar\n")
            for a, x in zip(t, v):
                f.write("%s,%s,%.10f,1.0\n" % (name, pd.Timestamp(a, unit="s", tz="Europe/Berlin").isoformat(), x))
        want[1, m] = ([("power", "apparent" if m == 1 else "active")], t, np.abs(v).reshape(-1, 1) * 1000)
    out = gen.scratch(".h5")
    convert_hipe(root, out)
    judge(mon, out, want, "Europe/Berlin", "hipe", rtol=1e-5)
    opens(mon, out, want, "hipe")
    mon.state("hipe", len(want))


def w_hes(mon, rng):
    root = mk(gen.scratch("hes"))
    d = mk(root, "anonhes")
    houses = rng.sample(range(102000, 102050), rng.randrange(1, 4))
    write(os.path.join(d, "ipsos-anonymised-corrected_310713.csv"), "house,x\n" + "".join("%d,1\n" % h for h in houses))
    codes = [1, 2, 3, 4, 5, 6, 7, 8, 240, 208, 251]
    rows = []
    for h in houses:
        t0 = pd.Timestamp(rng.choice(["2010-06-01 10:00:00", "2010-10-30 23:00:00"]))
        for c in rng.sample(codes, rng.randrange(1, 5)):
            for i in range(rng.choice([2, 10])):
                rows.append((h, c, t0 + pd.Timedelta(minutes=2 * i), rng.randrange(0, 4000)))
    if rng.chance(0.5):
        rng.shuffle(rows)
    half = len(rows) // 2 if rng.chance(0.5) else len(rows)
    for s, part in (("1a", rows[:half]), ("2", rows[half:])):
        if part:
            dd = mk(root, "agd-%s" % s)
            write(os.path.join(dd, "appliance_group_data-%s.csv" % s),
                  "".join("1,%d,%d,%s,%d,%s\n" % (h, c, t.strftime("%Y-%m-%d"), x, t.strftime("%H:%M:%S")) for h, c, t, x in part))
    out = gen.scratch(".h5")
    convert_hes(root, out)
    got = tables(out)
    # houses and meters are numbered in the order they are met: find each house by the name recorded in the metadata
    ds = DataSet(out)
    mon.equal(sorted(b.metadata.get("original_name") for b in ds.buildings.values()), sorted({r[0] for r in rows}), "hes.houses")
    for i, b in ds.buildings.items():
        h = b.metadata["original_name"]
        mine = {}
        for hh, c, t, x in rows:
            if hh == h:
                mine.setdefault(c, []).append((t.value, np.float32(x * 10)))
        have = sorted(tuple(sorted(zip(gen.ns(df.index).tolist(), df.values.ravel().astype(np.float32).tolist())))
                      for k, df in got.items() if k.startswith("/building%d/" % i))
        need = sorted(tuple(sorted((a, float(x)) for a, x in v)) for v in mine.values())
        mon.equal(have, need, "hes.rows", "a meter does not hold exactly its appliance's readings", house=h)
        # metadata: one appliance per appliance code that is neither mains, circuit nor temperature
        napp = sum(c < 200 for c in mine)
        mon.equal(len(b.elec.appliances), napp, "hes.appliances", house=h, codes=sorted(mine))
    ds.store.close()
    mon.state("hes", len(houses), half < len(rows))


def w_dataport(mon, rng):
    root = mk(gen.scratch("dataport"))
    ids = sorted(rng.sample(range(20, 9000), rng.randrange(1, 4)))
    bad = rng.randrange(9001, 9100)
    meta = os.path.join(root, "metadata.csv")
    write(meta, "dataid,building_type,city,state,house_construction_year,egauge_1s_data_availability,grid\n"
                "description,,,,,,\n" + "".join("%d,Single-Family Home,Austin,Texas,2000,%s,yes\n" % (i, rng.choice(["97%", "100%"]))
                                                for i in rng.sample(ids, len(ids)))
          + "%d,Single-Family Home,Austin,Texas,2000,%s,%s\n" % (bad, *rng.choice([("50%", "yes"), ("99%", "no")])))
    apps = {i: rng.sample(["air1", "car1", "oven1", "kitchen1", "refrigerator1"], rng.randrange(1, 4)) for i in ids + [bad]}
    solar = {i: rng.chance(0.4) for i in ids + [bad]}
    allc = ["air1", "car1", "oven1", "kitchen1", "refrigerator1", "solar", "grid", "leg1v"]
    raw = {}
    files = []
    nfile = rng.randrange(1, 3)
    for k in range(nfile):
        rows = []
        for i in ids + [bad]:
            n = rng.choice([3, 20])
            t = stamps(rng, n, start=1520740800 + k * 10 ** 6, period=1)
            for a in t:
                r = {c: rng.randrange(8000) / 1024.0 for c in apps[i] + ["grid"] + (["solar"] if solar[i] else [])}
                r["leg1v"] = 120.0
                rows.append((i, a, r))
                raw.setdefault(i, []).append((a, r))
        rng.shuffle(rows)
        p = os.path.join(root, "1s_data_file%d.csv" % (k + 1))
        with open(p, "w") as f:
            f.write("dataid,localminute," + ",".join(allc) + "\n")
            for i, a, r in rows:
                ts = str(pd.Timestamp(a, unit="s", tz="UTC").tz_convert("US/Central"))[:-3]
                f.write("%d,%s,%s\n" % (i, ts, ",".join("%.10f" % r[c] if c in r else "" for c in allc)))
        files.append(p)
    want = {}
    for b, i in enumerate(ids, 1):
        rs = sorted(raw[i], key=lambda x: x[0])
        t = [a for a, _ in rs]
        cols = [c for c in allc if c in apps[i]]
        use = [r["grid"] + r.get("solar", 0) for _, r in rs]
        order = cols + ["use"]
        for m, c in enumerate(order, 1):
            v = use if c == "use" else [r[c] for _, r in rs]
            want[b, m] = ([("power", "active")], t, np.array(v).reshape(-1, 1) * 1000)
    out = gen.scratch(".h5")
    import tempfile
    made = []
    real = tempfile.mkdtemp
    chunk = rng.choice([7, 1000])
    # CSV rows come unsorted, so every chunk holds every house's columns only if the chunk holds a row of it
    dataport.convert_dataport(rng.sample(files, len(files)), meta, out, chunksize=chunk)
    judge(mon, out, want, "US/Central", "dataport", check_sorted=True, rtol=1e-5)
    opens(mon, out, want, "dataport")
    ds = DataSet(out)
    for b, i in enumerate(ids, 1):
        mon.equal(ds.buildings[b].metadata["original_name"], i, "dataport.original_name")
        mon.equal(sorted(a.metadata["original_name"] for a in ds.buildings[b].elec.appliances), sorted(apps[i]), "dataport.appliances")
        main = ds.buildings[b].elec.mains()
        mon.equal(main.instance(), len(apps[i]) + 1, "dataport.mains")
    ds.store.close()
    mon.state("dataport", len(ids), nfile, chunk, any(solar.values()))


def w_deddiag(mon, rng):
    raw = {}

    class MeasurementsExpanded(object):
        def __init__(self, item, start, end):
            self.item, self.start, self.end = item, start, end

        def request(self, con):
            t, v = raw[self.item]
            return pd.DataFrame(dict(item_id=self.item, time=t, value=v))
    stub = types.ModuleType("deddiag_loader")
    stub.Connection = stub.Items = object
    stub.MeasurementsExpanded = MeasurementsExpanded
    sys.modules["deddiag_loader"] = stub
    from nilmtk.dataset_converters.deddiag.convert_deddiag import convert_deddiag
    import nilmtk.dataset_converters.deddiag.convert_deddiag as mod
    mod.MeasurementsExpanded = MeasurementsExpanded
    want = {}
    for c in [24, 26, 27, 28, 35, 51, 52, 53, 59]:
        n = rng.choice([2, 40])
        raw[c] = (stamps(rng, n, start=1509235200, period=1, shuffle=rng.chance(0.3)), vals(rng, n))
        want[8, c] = ([("power", "active")], raw[c][0], raw[c][1])
    out = gen.scratch(".h5")
    convert_deddiag(None, out)
    judge(mon, out, want, "Europe/Berlin", "deddiag")
    opens(mon, out, want, "deddiag")
    mon.state("deddiag", len(want))


def w_caxe(mon, rng):
    """Reads ./metadata and writes ./test.h5, so it runs in a scratch directory."""
    import shutil
    from nilmtk.dataset_converters.caxe import convert_caxe as mod
    d = mk(gen.scratch("caxe"))
    shutil.copytree(os.path.join(os.path.dirname(mod.__file__), "metadata"), os.path.join(d, "metadata"))
    tz = rng.choice(["Asia/Kolkata", "UTC", "Europe/London"])
    minutes = rng.choice([1, 7, 60])
    start = pd.Timestamp(rng.choice(["2020-03-01 10:00", "2020-03-28 23:40", "2019-12-31 23:55"]), tz=tz).value // 10 ** 9
    rows = []
    for k in range(minutes):
        for off in sorted(rng.sample(list(range(60)), rng.randrange(1, 6))):
            rows.append((start + 60 * k + off, [rng.randrange(0, 9000) / 8.0 for _ in range(6)], False))
    for _ in range(rng.choice([0, 3])):                      # rows with a missing value are left out
        rows.append((start + rng.randrange(60 * minutes), [1e4] * 6, True))
    if rng.chance(0.4):
        rng.shuffle(rows)
    raw = os.path.join(d, "raw.csv")
    with open(raw, "w") as f:
        for t, v, hole in rows:
            cells = ["%.3f" % x for x in v]
            if hole:
                cells[rng.randrange(6)] = ""
            f.write("%s,%s\n" % (pd.Timestamp(t, unit="s", tz="UTC").tz_convert(tz), ",".join(cells)))
    per = {}
    for t, v, hole in rows:
        if not hole:
            per.setdefault(t - t % 60, []).append(v)
    secs = sorted(per)
    cols = [("power", "reactive"), ("power", "apparent"), ("current", ""), ("frequency", ""), ("voltage", ""), ("power", "active")]
    want = {(1, 1): (cols, secs, [np.mean(per[t], axis=0) for t in secs])}
    cwd = os.getcwd()
    os.chdir(d)
    try:
        mod.convert_caxe(raw)
        judge(mon, os.path.join(d, "test.h5"), want, "None", "caxe", exact_order=True, rtol=1e-5)
        opens(mon, os.path.join(d, "test.h5"), want, "caxe")
        mon.equal(os.getcwd(), d if not os.path.islink(d) else os.path.realpath(d), "caxe.cwd") if os.path.isabs(d) else None
    finally:
        os.chdir(cwd)
    mon.state("caxe", minutes, tz, len(rows) > len(per))
