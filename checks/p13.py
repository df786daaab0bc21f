"""P13: cached statistics are indistinguishable from freshly computed ones."""
import numpy as np
import pandas as pd

from checks import gen
from checks.p11 import gap_df
from nilmtk import STATS_CACHE
from nilmtk.timeframe import TimeFrame

WORKLOADS = [("variants", 40, 400), ("history", 60, 700), ("datasets", 24, 250), ("clear", 24, 250), ("clear_many", 16, 160)]
RULE = ("random histories of statistics requests (energy, good sections, dropout rate; sections, windows, chunk sizes, "
        "columns, inclusive ends, two meters, two datasets) are answered once with an empty cache each and once with the "
        "cache left by the preceding requests; both answers are compared; distinct = (statistic, option set, position, repeated?)")
ASSUMPTIONS = ["the stored data does not change meanwhile (clear_cache is for that)", "datasets have different names"]
TECHNIQUE = "history monitor: answer given the cache left by any request history vs answer with an empty cache"
NOTE = "Held on the executions observed; every request of a history is compared with its cold answer."

COLS = [("power", "active"), ("power", "apparent"), ("energy", "active"), ("cumulative energy", "active"), ("voltage", "")]


def wipe():
    for el in list(STATS_CACHE.elements_below_key("/")):
        STATS_CACHE.remove("/" + el)


PLACES = [((1, 1), (1, 2))] * 2 + [((1, 1), (2, 1)), ((1, 1), (11, 1)), ((1, 1), (1, 11)), ((1, 1), (1, 101)), ((1, 2), (1, 12)),
                                  ((1, 11), (11, 1)), ((1, 3), (101, 3)), ((2, 5), (2, 1005))]


def make(rng, name, tz, places=((1, 1), (1, 2))):
    d = gen.Data(name, tz)
    dfs = {}
    for n, (b, i) in enumerate(places):
        cols = rng.sample(COLS, rng.randrange(1, 4))
        if not any(c[1] for c in cols):
            cols.append(("power", "active"))
        maxp = rng.choice([3, 10])
        df = gap_df(rng, rng.choice([10, 40]), maxp, cols=cols, tz=tz)
        for c in cols:
            if c[0] == "cumulative energy":
                df[c] = np.cumsum(rng.np.integers(0, 50, len(df))) / 8.0
        dev = "%s-%d" % (name, n)
        d.devices[dev] = gen.device(dev, cols, 1, maxp)
        first = n == 0 or b != places[0][0]
        d.meter(b, i, df, dev, of=i if first else places[0][1], site=first)
        dfs[b, i] = (df, cols)
        if not first:
            d.appliance(b, "fridge", 1, [i])
    return d, dfs


def canon(x):
    """Comparable form of any answer."""
    if hasattr(x, "combined"):
        per = x.per_period()
        rows = []
        for i in range(len(per)):
            r = per.iloc[i]
            row = [per.index[i].value, pd.Timestamp(r["end"]).value]
            for c in sorted(set(per.columns) - {"end"}):
                v = r[c]
                if isinstance(v, list):
                    row.append([(c, None if t.start is None else t.start.value, None if t.end is None else t.end.value) for t in v])
                elif not (isinstance(v, float) and np.isnan(v)):
                    row.append((c, round(float(v), 9)))
            rows.append(row)
        return ("results", rows)
    if isinstance(x, pd.Series):
        return ("series", sorted((str(k), round(float(v), 9)) for k, v in x.items() if v == v))
    if isinstance(x, (list, tuple)):
        return ("frames", [(t.start.value, t.end.value, t.include_end) for t in x])
    if x is None:
        return None
    x = float(x)
    return ("number", "nan" if np.isnan(x) else round(x, 9))


def request(rng, dfs, chunked):
    i = rng.choice([min(dfs), min(dfs), max(dfs)])
    df, cols = dfs[i]
    stat = rng.choice(["total_energy", "total_energy", "good_sections", "dropout_rate"])
    kw = {}
    opts = []
    if stat == "dropout_rate" and rng.chance(0.5):
        kw["ignore_gaps"] = rng.choice([True, False])
    if rng.chance(0.5):
        secs = gen.disjoint_sections(rng, df.index, rng.randrange(1, 4), inclusive=rng.choice([0, 0.5]))
        if secs:
            kw["sections"] = secs
            opts.append("sections")
    if rng.chance(0.3):
        typed = [c for c in cols if c[1]]
        c = rng.choice(typed)
        kw["physical_quantity"] = c[0]
        if rng.chance(0.5):
            kw["ac_type"] = c[1]
        opts.append("columns")
    elif rng.chance(0.2):
        kw["columns"] = rng.sample(cols, rng.randrange(1, len(cols) + 1))
        opts.append("explicit columns")
    elif rng.chance(0.15):
        c = rng.choice([c for c in cols if c[1]])
        kw["ac_type"] = c[1]
        opts.append("ac_type")
    if chunked and rng.chance(0.4):
        kw["chunksize"] = rng.choice([3, 7, 15])
        opts.append("chunks")
    if rng.chance(0.3):
        kw["full_results"] = True
        opts.append("full")
    return stat, i, kw, opts


def copy_kw(kw):
    kw = dict(kw)
    if "sections" in kw:
        out = []
        for s in kw["sections"]:
            t = TimeFrame(s)
            t.include_end = s.include_end
            out.append(t)
        kw["sections"] = out
    return kw


def ask(ds, stat, i, kw):
    m = ds.buildings[i[0]].elec[i[1]]
    try:
        return canon(getattr(m, stat)(**copy_kw(kw)))
    except Exception as e:      # also an answer
        return ("error", type(e).__name__)


def windows(rng, df, n):
    out = [TimeFrame()]
    for _ in range(n):
        out.append(gen.rand_tf(rng, df.index, p_open=0.3, inclusive=0))
    return out


def run(mon, rng, stores, chunked=True):
    """stores: list of (DataSet, dfs).  Random history over all of them."""
    reqs, wins = [], [windows(rng, dfs[min(dfs)][0], 2) for _, dfs in stores]
    pool = []
    for _ in range(rng.randrange(4, 12)):
        if pool and rng.chance(0.55):
            base = rng.choice(pool)
            k, stat, i, kw, opts, w = base
            kw = dict(kw)
            mut = rng.randrange(8)
            if mut == 0:
                stat = rng.choice(["total_energy", "good_sections", "dropout_rate"])
                kw.pop("ignore_gaps", None)
            elif mut == 1 and "sections" in kw:
                secs = copy_kw(kw)["sections"]
                for s in secs:
                    s.include_end = rng.chance(0.5)
                kw["sections"] = secs
            elif mut == 2:
                k = rng.randrange(len(stores))
                w = rng.choice(wins[k])
            elif mut == 3:
                w = rng.choice(wins[k])
            elif mut == 4 and chunked:
                kw["chunksize"] = rng.choice([3, 7, 1000])
            elif mut == 5 and "sections" in kw and len(kw["sections"]) > 1:
                kw["sections"] = rng.sample(kw["sections"], len(kw["sections"]) - 1)
                kw["sections"].sort()
            elif mut == 6 and "columns" in kw:
                cols = stores[k][1][i][1] if i in stores[k][1] else kw["columns"]
                kw["columns"] = rng.sample(cols, rng.randrange(1, len(cols) + 1))
            elif mut == 7 and k < len(stores):
                i = rng.choice(sorted(stores[k][1]))
                if "columns" in kw:
                    kw["columns"] = [c for c in kw["columns"] if c in stores[k][1][i][1]] or stores[k][1][i][1][:1]
            r = (k, stat, i, kw, opts, w)
        else:
            k = rng.randrange(len(stores))
            stat, i, kw, opts = request(rng, stores[k][1], chunked)
            r = (k, stat, i, kw, opts, rng.choice(wins[k]))
        pool.append(r)
        reqs.append(r)
    cold = []
    for k, stat, i, kw, opts, w in reqs:
        wipe()
        stores[k][0].store.window = w
        cold.append(ask(stores[k][0], stat, i, kw))
    wipe()
    seen = set()
    for n, ((k, stat, i, kw, opts, w), want) in enumerate(zip(reqs, cold)):
        stores[k][0].store.window = w
        got = ask(stores[k][0], stat, i, kw)
        mon.note(n, "dataset", k, stat, "meter", i, kw, [s.include_end for s in kw.get("sections", [])], "window", w, "->", got)
        mon.check(got == want, "history." + stat, "answer depends on earlier requests", request=(k, stat, i, kw), window=w,
                  warm=got, cold=want, position=n)
        mon.state(stat, tuple(opts), min(n, 3), k, (stat, i) in seen)
        seen.add((stat, i))
        mon.event("requests compared")
        mon.event("errors agreed", 1 if want and want[0] == "error" else 0)


def w_history(mon, rng):
    d, dfs = make(rng, "one", rng.choice(["Europe/London", "UTC"]), rng.choice(PLACES))
    ds = d.open()
    try:
        run(mon, rng, [(ds, dfs)])
    finally:
        ds.store.close()


def w_variants(mon, rng):
    """Requests that differ in exactly one respect are never answered from each other's cache entry."""
    places = rng.choice(PLACES)
    stores = []
    for name in ("one", "other"):
        d = gen.Data(name, "UTC")
        dfs = {}
        for n, (b, i) in enumerate(places):
            cols = [("power", "active"), ("energy", "active"), ("power", "apparent")]
            df = gap_df(rng, 30, 10, cols=cols, tz="UTC")
            dev = "%s-%d" % (name, n)
            d.devices[dev] = gen.device(dev, cols, 1, 10)
            first = n == 0 or b != places[0][0]
            d.meter(b, i, df, dev, of=i if first else places[0][1], site=first)
            dfs[b, i] = (df, cols)
            if not first:
                d.appliance(b, "fridge", 1, [i])
        stores.append((d.open(), dfs))
    try:
        df, cols = stores[0][1][min(places)]
        stat = rng.choice(["total_energy", "total_energy", "good_sections", "dropout_rate"])
        kw = {}
        secs = gen.disjoint_sections(rng, df.index, rng.randrange(1, 4), inclusive=0)
        if secs and rng.chance(0.5):
            kw["sections"] = secs
        col = rng.randrange(4)
        if col == 1:
            kw["columns"] = [cols[0]]
        elif col == 2:
            kw.update(physical_quantity="power", ac_type="active")
        win = gen.rand_tf(rng, df.index, p_open=0.3, inclusive=0) if rng.chance(0.3) else TimeFrame()
        base = (0, stat, min(places), kw, win)
        variants = [("dataset", (1,) + base[1:]), ("meter", base[:2] + (max(places),) + base[3:]),
                    ("window", base[:4] + (gen.rand_tf(rng, df.index, p_open=0.3, inclusive=0),))]
        plain = {k: v for k, v in kw.items() if k == "sections"}
        for c in ([cols[0]], [cols[1]], [cols[2]], cols[:2]):
            variants.append(("columns", base[:3] + (dict(plain, columns=list(c)), win)))
        for extra in (dict(physical_quantity="energy"), dict(physical_quantity="power"), dict(physical_quantity="power", ac_type="active"),
                      dict(ac_type="active"), dict(physical_quantity="power", ac_type="apparent")):
            variants.append(("measurement", base[:3] + (dict(plain, **extra), win)))
        if stat == "dropout_rate":
            variants += [("ignore_gaps", base[:3] + (dict(kw, ignore_gaps=x), win)) for x in (True, False)]
        if "sections" in kw:
            variants.append(("fewer sections", base[:3] + (dict(kw, sections=secs[:-1] or secs), win)))
            variants.append(("all sections", base[:3] + ({k: v for k, v in kw.items() if k != "sections"}, win)))
            closed = copy_kw(kw)["sections"]
            for t in closed:
                t.include_end = True
            variants.append(("inclusive ends", base[:3] + (dict(kw, sections=closed), win)))

        def one(r):
            k, st, i, kw, w = r
            stores[k][0].store.window = w
            return ask(stores[k][0], st, i, kw)

        chosen = variants[:2] + rng.sample(variants[2:], 4)
        cold = []
        for r in [base] + [v for _, v in chosen]:
            wipe()
            cold.append(one(r))
        different = 0
        for (what, r), want in zip(chosen, cold[1:]):
            wipe()
            one(base)
            got = one(r)
            mon.check(got == want, "variants." + what.replace(" ", "_"), "answer depends on an earlier request that differs in: " + what,
                      base=base[:4], request=r[:4], warm=got, cold=want)
            again = one(base)
            mon.check(again == cold[0], "variants.base", "answer changed after a request that differs in: " + what, base=base[:4],
                      request=r[:4], warm=again, cold=cold[0])
            different += want != cold[0]
            mon.event("neighbouring requests compared")
            mon.state("variant", stat, what, want != cold[0])
        mon.event("neighbours with another answer", different)
    finally:
        for ds, _ in stores:
            ds.store.close()


def w_datasets(mon, rng):
    places = rng.choice(PLACES)
    a, fa = make(rng, rng.choice(["REDD", "a/b", "x y"]), "UTC", places)
    b, fb = make(rng, rng.choice(["UK-DALE", "a_b", "x_y"]), "UTC", places)
    da, db = a.open(), b.open()
    try:
        run(mon, rng, [(da, fa), (db, fb)])
    finally:
        da.store.close()
        db.store.close()


def other_data(rng, df):
    """Another table of the same extent, so that the cached requests are the same."""
    keep = rng.np.random(len(df)) < 0.6
    keep[[0, -1]] = True
    return df[keep] * 3


def w_clear(mon, rng):
    """clear_cache: answers then reflect the present data, other meters' caches unharmed."""
    d, dfs = make(rng, "one", "UTC")
    ds = d.open("hdf")
    try:
        st = ds.store
        elec = ds.buildings[1].elec
        m1, m2 = elec[1], elec[2]
        before = canon(m1.total_energy()), canon(m2.total_energy())
        m1.good_sections(), m1.dropout_rate()
        key = d.key(1, 1)
        df = dfs[1, 1][0]
        new = df.iloc[: max(3, len(df) // 2)] * 2 if rng.chance(0.3) else other_data(rng, df)
        path = st.store.filename
        st.close()
        from nilmtk.datastore import HDFDataStore
        w = HDFDataStore(path, "a")
        w.put(key, new)
        w.close()
        st.open("r")
        how = rng.randrange(3)
        if how == 0:
            m1.clear_cache()
        elif how == 1:
            elec.clear_cache()
        else:
            ds.clear_cache()
        got = [canon(m1.total_energy()), canon(m1.good_sections()), canon(m1.dropout_rate()), canon(m2.total_energy())]
        wipe()
        want = [canon(m1.total_energy()), canon(m1.good_sections()), canon(m1.dropout_rate()), canon(m2.total_energy())]
        mon.equal(got, want, "clear.fresh", "cleared statistics are still answered from the cache", how=how)
        mon.equal(got[3], before[1], "clear.other_meter")
        mon.state("clear", how, got[0] != before[0])
    finally:
        ds.store.close()


def w_clear_many(mon, rng):
    """clear_cache of a meter, group, building or dataset covers every meter below it, and no other."""
    from nilmtk.datastore import HDFDataStore
    d = gen.Data("clear-%d" % rng.randrange(10 ** 9), "UTC")
    d.devices["c"] = gen.device("c", [("power", "active")], 6, 30)
    keys = []
    for b in range(1, rng.randrange(1, 4) + 1):
        for i in range(1, rng.randrange(1, 4) + 1):
            d.meter(b, i, gen.rand_frame_df(rng, 40, [("power", "active")], period=6, tz="UTC", gaps=0.1), "c", of=1, site=i == 1)
            d.appliance(b, "fridge", i, [i])
            keys.append((b, i))
    ds = d.open("hdf")
    try:
        st = ds.store
        ask = {"energy": lambda m: canon(m.total_energy()), "sections": lambda m: canon(m.good_sections()),
               "dropout": lambda m: canon(m.dropout_rate())}
        meter = lambda k: ds.buildings[k[0]].elec[k[1]]
        before = {(k, a): f(meter(k)) for k in keys for a, f in ask.items()}
        path = st.store.filename
        st.close()
        w = HDFDataStore(path, "a")
        for k in keys:
            df = d.df(*k)
            w.put(d.key(*k), df.iloc[:rng.randrange(10, 30)] * 3 if rng.chance(0.2) else other_data(rng, df))
        w.close()
        st.open("r")
        b = rng.choice(sorted(d.buildings))
        how = rng.choice(["meter", "group", "part", "dataset", "dataset"])
        if how == "meter":
            cleared = [rng.choice(keys)]
            meter(cleared[0]).clear_cache()
        elif how == "group":
            cleared = [k for k in keys if k[0] == b]
            ds.buildings[b].elec.clear_cache()
        elif how == "part":
            from nilmtk.metergroup import MeterGroup
            cleared = rng.sample(keys, min(2, len(keys)))
            MeterGroup([meter(k) for k in cleared]).clear_cache()
        else:
            cleared = list(keys)
            ds.clear_cache()
        order = [(k, a) for k in keys for a in ask]
        rng.shuffle(order)
        got = {(k, a): ask[a](meter(k)) for k, a in order}
        wipe()
        fresh = {(k, a): f(meter(k)) for k in keys for a, f in ask.items()}
        for k in keys:
            for a in ask:
                if k in cleared:
                    mon.equal(got[k, a], fresh[k, a], "clear_many.fresh", "a cleared statistic is still answered from the cache",
                              meter=k, statistic=a, cleared_by=how)
                else:
                    mon.check(got[k, a] in (before[k, a], fresh[k, a]), "clear_many.other_meter", "", meter=k, statistic=a, cleared_by=how)
        mon.event("statistics compared after clearing", len(got))
        mon.state("clear_many", how, len(d.buildings), len(keys), len(cleared))
    finally:
        ds.store.close()
