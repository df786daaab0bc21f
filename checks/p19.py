"""P19: disaggregation metrics over meter groups."""
import numpy as np
import pandas as pd

from checks import gen
from checks.p10 import energy_ref
from nilmtk import metrics
from nilmtk.electric import align_two_meters
from nilmtk.utils import compute_rmse

WORKLOADS = [("align", 60, 700), ("metrics", 60, 700), ("rmse", 80, 1000)]
RULE = ("pairs of datasets (prediction and ground truth with 1-4 submeters in different order, different sampling, gaps, missing "
        "spans) are aligned and scored; alignment is compared cell by cell with the raw samples and every metric with its "
        "formula over the aligned samples; distinct = (#meters, #sections, sampling, gaps, states)")
ASSUMPTIONS = ["the last sample of a section may be left out of the alignment", "F1 over several chunks is the documented weighted mean",
               "the truth energy may also be summed where the prediction is missing"]
TECHNIQUE = "differential monitor: aligned cells vs raw samples, metric values vs formulas over the aligned cells"
NOTE = "Held on the executions observed; every metric value is recomputed."
W = [("power", "active")]


def cellmean(df, period):
    """{cell start ns: mean} of a one-column table, plus the set of cells holding its last row."""
    out = {}
    if not len(df):
        return out
    t, v = gen.ns(df.index), df.values[:, 0]
    o = df.index[0].normalize().value
    c = o + (t - o) // (period * 10 ** 9) * (period * 10 ** 9)
    for x in np.unique(c):
        out[int(x)] = float(np.mean(v[c == x]))
    return out


def pair(rng):
    tz = rng.choice(["UTC", "Europe/London"])
    tag = rng.randrange(10 ** 9)
    P, T = gen.Data("pred-%d" % tag, tz), gen.Data("truth-%d" % tag, tz)
    n = rng.randrange(1, 5)
    ids = list(range(2, n + 2))
    sp = rng.choice([6, 10, 60])
    for d, order in ((P, ids), (T, rng.sample(ids, n))):
        sp_d = sp if d is P else rng.choice([sp, 1, 2 * sp])
        for i in [1] + order:
            model = "%s-%d" % (d.name, i)
            d.devices[model] = gen.device(model, W, sp_d, sp_d * rng.choice([1, 2, 5]), None, None)
            df = gen.rand_frame_df(rng, rng.choice([40, 90]), W, period=sp_d, tz=tz, gaps=rng.choice([0, 0.05, 0.15]), maxgap=12,
                                   start=rng.choice(["2013-10-26 22:00", "2013-10-26 22:01"]))
            df = df * (rng.np.random(len(df)) < 0.6)[:, None]
            d.meter(1, i, df, model, of=1, site=i == 1)
            if i > 1:
                d.appliance(1, "fridge", i, [i])
    return P, T, ids, sp


def w_align(mon, rng):
    P, T, ids, sp = pair(rng)
    dp, dt = P.open(), T.open()
    try:
        i = rng.choice(ids)
        m, s = dp.buildings[1].elec[i], dt.buildings[1].elec[i]
        a, b = P.df(1, i), T.df(1, i)
        gs = list(m.good_sections())
        got = {}
        nchunks = 0
        for c in align_two_meters(m, s):
            nchunks += 1
            mon.equal(list(c.columns), ["master", "slave"], "align.columns")
            for t, x, y in zip(gen.ns(c.index), c["master"].values, c["slave"].values):
                if not (np.isnan(x) and np.isnan(y)):
                    got[int(t)] = (x, y)
        compared = 0
        allowed = {}
        for sec in gs:
            mm = (gen.ns(a.index) >= sec.start.value) & (gen.ns(a.index) <= sec.end.value)
            A = a[mm]
            if len(A) < 2:
                continue
            lo, hi = A.index[0].value, A.index[-1].value
            B = b[(gen.ns(b.index) >= lo) & (gen.ns(b.index) <= hi)]
            ca, cb = cellmean(A, sp), cellmean(B, sp)
            # the last master rows of a section bound the slave's rows
            edge = {x for x in set(ca) | set(cb) if x + sp * 10 ** 9 > gen.ns(A.index)[max(0, len(A) - 2)]}
            for x in set(ca) | set(cb):
                allowed[x] = True
                if x in edge:
                    continue
                if x in ca and x in cb:
                    mon.check(x in got, "align.missing", "an instant measured by both meters is not aligned", instant=pd.Timestamp(x), section=sec)
                    mon.close(got[x][0], ca[x], "align.master", instant=pd.Timestamp(x))
                    mon.close(got[x][1], cb[x], "align.slave", instant=pd.Timestamp(x))
                    compared += 1
        for x in got:
            mon.check(x in allowed, "align.outside", "an aligned instant outside the master's good sections", instant=pd.Timestamp(x))
        mon.event("aligned cells compared", compared)
        mon.state("align", min(len(gs), 4), min(nchunks, 4), sp, T.devices["%s-%d" % (T.name, i)]["sample_period"])
    finally:
        dp.store.close()
        dt.store.close()


def num(x, ac="active"):
    return float(x[ac]) if isinstance(x, pd.Series) else float(x)


def w_metrics(mon, rng):
    P, T, ids, sp = pair(rng)
    dp, dt = P.open(), T.open()
    try:
        p, g = dp.buildings[1].elec, dt.buildings[1].elec
        chunks, states = {}, {}
        for i in ids:
            chunks[i] = [c.dropna() for c in align_two_meters(p[i], g[i])]
            states[i] = [c.dropna() for c in align_two_meters(p[i], g[i], "when_on")]
            if sum(map(len, chunks[i])) == 0 or sum(c["slave"].sum() for c in chunks[i]) == 0:
                return
        rms = metrics.rms_error_power(p, g)
        mne = metrics.mean_normalized_error_power(p, g)
        f1 = metrics.f1_score(p, g)
        eae = metrics.error_in_assigned_energy(p, g)
        for r, name in ((rms, "rms"), (mne, "mne"), (f1, "f1"), (eae, "eae")):
            mon.equal(sorted(r.index), ids, name + ".meters")
        for i in ids:
            x = pd.concat(chunks[i])
            e = x["master"] - x["slave"]
            mon.close(rms[i], float(np.sqrt((e ** 2).mean())), "rms.value", meter=i)
            raw = sum(c["slave"].sum() for c in align_two_meters(p[i], g[i]))
            ok = any(abs(mne[i] - e.abs().sum() / den) <= 1e-9 * (1 + abs(mne[i])) for den in (raw, x["slave"].sum()) if den)
            mon.check(ok, "mne.value", "mean normalised error", got=mne[i], want=e.abs().sum() / raw, meter=i)
            tot = score = 0.0
            for c in states[i]:
                a, b = c["master"].astype(int).values, c["slave"].astype(int).values
                tp = int(((a == 1) & (b == 1)).sum())
                fp_fn = int((a != b).sum())
                f = 2 * tp / (2 * tp + fp_fn) if tp else 0.0
                score += f * len(c)
                tot += len(c)
            mon.close(f1[i], score / tot, "f1.value", meter=i)
            secs = p[i].good_sections()
            en = []
            for d in (P, T):
                df = d.df(1, i)
                mp = d.devices["%s-%d" % (d.name, i)]["max_sample_period"]
                en.append(sum(energy_ref(df[gen.in_frame(df.index, s)], mp).get("active", 0.0) for s in secs))
            tf = T.df(1, i)
            if any(gen.in_frame(tf.index, s).any() for s in secs):
                mon.close(num(eae[i]), abs(en[0] - en[1]), "eae.value", meter=i, rtol=1e-9, atol=1e-12)
            mon.event("metric values compared", 4)
        fr = metrics.fraction_energy_assigned_correctly(p, g)
        ep = {i: energy_ref(P.df(1, i), P.devices["%s-%d" % (P.name, i)]["max_sample_period"])["active"] for i in ids}
        et = {i: energy_ref(T.df(1, i), T.devices["%s-%d" % (T.name, i)]["max_sample_period"])["active"] for i in ids}
        if len(ids) > 1:
            want = sum(min(ep[i] / sum(ep.values()), et[i] / sum(et.values())) for i in ids)
            mon.close(float(fr), want, "fraction.value", predicted=ep, truth=et)
        # a perfect prediction
        mon.check(all(v == 0 for v in metrics.rms_error_power(p, p)), "rms.perfect")
        mon.state("metrics", len(ids), sp, min(3, len(chunks[ids[0]])))
    finally:
        dp.store.close()
        dt.store.close()


def w_rmse(mon, rng):
    n, k = rng.choice([1, 5, 50]), rng.randrange(1, 5)
    idx = gen.rand_index(rng, n, period=6)
    cols = ["a%d" % j for j in range(k)]
    gt = pd.DataFrame(gen.rand_values(rng, n, k, rng.choice([0, 0.2])), index=idx, columns=cols)
    pr = pd.DataFrame(gen.rand_values(rng, n, k, rng.choice([0, 0.2])), index=idx, columns=cols)
    if rng.chance(0.4):
        pr = pr.iloc[rng.randrange(0, n):]
    b = gt.copy(), pr.copy()
    got = compute_rmse(gt, pr, pretty=rng.chance(0.5))
    for c in cols:
        e = (gt[c] - pr[c]).dropna()
        if not len(pr):
            continue
        if len(e):
            mon.close(got[c], float(np.sqrt((e ** 2).mean())), "compute_rmse.value", column=c)
        else:
            mon.check(c not in got.index or np.isnan(got[c]), "compute_rmse.undefined")
    mon.check(gt.equals(b[0]) and pr.equals(b[1]), "compute_rmse.arguments")
    mon.state("rmse", n, k, len(pr) == n)
