"""P30: series statistics of meters (correlation, entropy, mutual information, plots' data)."""
import os
os.environ["MPLBACKEND"] = "Agg"
import numpy as np
import pandas as pd
from scipy.special import digamma

from checks import gen
from checks.p08 import reference
from nilmtk.metergroup import MeterGroup

WORKLOADS = [("correlation", 60, 700), ("mixed", 16, 200), ("information", 40, 400), ("plots", 24, 250), ("long", 2, 16)]
RULE = ("random meters (equal time stamps, gaps, chunk sizes, coarser periods) are correlated pairwise and their entropy and mutual "
        "information estimated; results are compared with Pearson's formula and brute-force nearest-neighbour estimators over the "
        "raw samples; the data drawn by the plots is read back; distinct = (statistic, #meters, gaps, chunked)")
ASSUMPTIONS = ["meters to correlate have the same time stamps (documented)", "samples are separated by more than the estimators' 1e-10 noise"]
TECHNIQUE = "differential monitor: reported statistics and drawn data vs independent formulas over the stored samples"
NOTE = "Held on the executions observed; every coefficient is recomputed."
W = [("power", "active")]


def make(rng, n, k, gaps, distinct=False, period=6):
    d = gen.Data("p30-%d" % rng.randrange(10 ** 9), "UTC")
    model = d.name + "dev"
    d.devices[model] = gen.device(model, W, period, period * 2, None, None)
    idx = gen.rand_index(rng, n, period=period, tz="UTC", gaps=gaps, maxgap=10, start="2013-06-07 10:00")
    base = gen.rand_values(rng, n, 1)[:, 0]
    for i in range(1, k + 1):
        if distinct:
            v = rng.np.choice(8 * 3000, n, replace=False) / 8.0
        else:
            v = gen.rand_values(rng, n, 1)[:, 0] + rng.choice([0, 1, -0.5]) * base
        d.meter(1, i, pd.DataFrame(v[:, None], index=idx, columns=gen.mi(W)), model, of=1, site=i == 1)
        d.appliance(1, "fridge", i, [i])
    return d


def pearson(x, y):
    ok = ~np.isnan(x) & ~np.isnan(y)
    x, y = x[ok], y[ok]
    if len(x) < 2:
        return np.nan
    x, y = x - x.mean(), y - y.mean()
    return float((x * y).sum() / np.sqrt((x * x).sum() * (y * y).sum()))


def series(d, i, period, dev_period=6):
    df = d.df(1, i)
    lab, val = reference(df, period, "mean", "ffill", -(-dev_period * 2 // period))
    return val[:, 0]


def w_correlation(mon, rng):
    n, k = rng.choice([3, 30, 120]), rng.randrange(2, 5)
    d = make(rng, n, k, rng.choice([0, 0, 0.1]))
    below = k > 2 and rng.chance(0.5)
    if below:
        d.buildings[1]["meters"][k]["of"] = 2     # its power is part of meter 2's already
    ds = d.open()
    try:
        el = ds.buildings[1].elec
        kw, period = {}, 6
        if rng.chance(0.4):
            period = kw["sample_period"] = rng.choice([6, 12, 60])
        x = {i: series(d, i, period) for i in range(1, k + 1)}
        if sum(~np.isnan(x[1])) < 3 or any(np.nanstd(v) < 1e-9 for v in x.values()):
            return
        i, j = rng.sample(range(1, k + 1), 2)
        got = el[i].correlation(el[j], **kw)
        mon.close(float(got), pearson(x[i], x[j]), "correlation.value", rtol=1e-6, atol=1e-9, period=period, n=n)
        mon.close(float(el[j].correlation(el[i], **kw)), float(got), "correlation.symmetric", rtol=1e-6, atol=1e-9)
        mon.close(float(el[i].correlation(el[i], **kw)), 1.0, "correlation.self", rtol=1e-6)
        mon.check(abs(got) <= 1 + 1e-9, "correlation.range", answer=got)
        sub = el if rng.chance(0.5) else el.submeters()
        pw = sub.pairwise_correlation()
        y = {m.instance(): series(d, m.instance(), 6) for m in sub.meters}
        mon.equal(pw.shape, (len(sub.meters),) * 2, "pairwise.shape")
        for a in sub.meters:
            for b in sub.meters:
                mon.close(float(pw[a.identifier][b.identifier]), pearson(y[a.instance()], y[b.instance()]), "pairwise.value", rtol=1e-6, atol=1e-9,
                          pair=(a.instance(), b.instance()))
                mon.event("coefficients compared")
        v = d.df(1, i).values[:, 0]
        mon.close(float(el[i].vampire_power()), float(v.min()), "vampire.value")
        if k > 1 and period == 6:
            direct = [series(d, q, 6) for q in range(2, k + 1 - below)]
            tot = np.sum(direct, axis=0)
            if np.nanstd(tot) > 1e-6:
                # the group leaves out the end of the section
                got = el.correlation_of_sum_of_submeters_with_mains()
                opts = [pearson(x[1], tot), pearson(x[1][:-1], tot[:-1])]
                if not np.isnan(opts).any() and not np.isnan(tot).any() and n > 30:
                    mon.check(any(abs(got - o) < 0.05 for o in opts), "submeters.correlation", "", answer=got, want=opts, below=below)
                    mon.event("sums of submeters compared")
        mon.state("corr", n, k, period, bool(np.isnan(x[1]).any()))
    finally:
        ds.store.close()


def w_mixed(mon, rng):
    """Meters read at different rates over the same span: compared at the slower one's rate."""
    fast, times = rng.choice([6, 10, 30]), rng.choice([2, 5, 6])
    slow, n = fast * times, rng.choice([8, 40, 120])
    d = gen.Data("p30m-%d" % rng.randrange(10 ** 9), "UTC")
    kinds, frames = {}, {}
    start = pd.Timestamp("2013-06-07 10:00", tz="UTC")
    base = gen.rand_values(rng, n, 1)[:, 0]
    k = rng.randrange(2, 5)
    periods = [fast, slow] + [rng.choice([fast, slow]) for _ in range(k - 2)]
    rng.shuffle(periods)
    for i, p in enumerate(periods, 1):
        if p not in kinds:
            kinds[p] = d.name + "dev%d" % p
            d.devices[kinds[p]] = gen.device(kinds[p], W, p, p * rng.randrange(2, 5), None, None)
        rep = slow // p
        idx = pd.date_range(start, periods=n * rep, freq="%ds" % p)
        v = gen.rand_values(rng, n * rep, 1)[:, 0] + rng.choice([0, 1, -0.5]) * np.repeat(base, rep)
        frames[i] = pd.Series(v, index=idx)
        d.meter(1, i, pd.DataFrame(v[:, None], index=idx, columns=gen.mi(W)), kinds[p], of=1, site=i == 1)
        d.appliance(1, "fridge", i, [i])
    at = lambda i, p: frames[i].resample("%ds" % p, origin="epoch").mean().values
    if any(np.std(at(i, slow)) < 1e-6 for i in frames):
        return
    ds = d.open()
    try:
        el = ds.buildings[1].elec
        want = lambda i, j: pearson(*[at(q, max(periods[i - 1], periods[j - 1])) for q in (i, j)])
        for i in frames:
            for j in frames:
                mon.close(float(el[i].correlation(el[j])), want(i, j), "correlation.rates", rtol=1e-6, atol=1e-9,
                          periods=(periods[i - 1], periods[j - 1]), n=n)
                mon.event("coefficients between meters of different rates", int(periods[i - 1] != periods[j - 1]))
        pw = el.pairwise_correlation()
        for a in el.meters:
            for b in el.meters:
                mon.close(float(pw[a.identifier][b.identifier]), want(a.instance(), b.instance()), "pairwise.rates", rtol=1e-6, atol=1e-9,
                          pair=(a.instance(), b.instance()))
        mon.state("mixed", fast, times, n, tuple(periods))
    finally:
        ds.store.close()


def knn_entropy(v, k, base):
    n = len(v)
    dist = np.abs(v[:, None] - v[None, :])
    nn = np.sort(dist, axis=1)[:, k]
    return float((digamma(n) - digamma(k) + np.log(2) + np.mean(np.log(nn))) / np.log(base))


def knn_mi(x, y, k, base):
    """Lowest and highest estimate: neighbours exactly on the boundary may count or not."""
    n = len(x)
    dx, dy = np.abs(x[:, None] - x[None, :]), np.abs(y[:, None] - y[None, :])
    eps = np.sort(np.maximum(dx, dy), axis=1)[:, k]
    out = []
    for slack in (1e-7, -1e-7):
        a = b = 0.0
        for i in range(n):
            a += digamma(max(1, (dx[i] < eps[i] + slack).sum()))
            b += digamma(max(1, (dy[i] < eps[i] + slack).sum()))
        out.append((-a / n - b / n + digamma(k) + digamma(n)) / np.log(base))
    return out


def w_information(mon, rng):
    n = rng.choice([8, 30, 80])
    d = make(rng, n, 2, rng.choice([0, 0.1]), distinct=True)
    # irregular offsets: no ties between distances
    for i in (1, 2):
        df = d.df(1, i)
        df.iloc[:, 0] = df.values[:, 0] + rng.np.random(n) * 0.1
    ds = d.open()
    try:
        el = ds.buildings[1].elec
        k, base = rng.choice([(3, 2), (1, 2), (2, np.e), (5, 10)])
        x, y = d.df(1, 1).values[:, 0], d.df(1, 2).values[:, 0]
        mon.close(float(el[1].entropy(k=k, base=base)), knn_entropy(x, k, base), "entropy.value", rtol=1e-5, atol=1e-5, k=k, base=base, n=n)
        got = float(el[1].mutual_information(el[2], k=k, base=base))
        # the k-th neighbour sits on the boundary of one marginal ball: rounding decides whether it counts
        lo, hi = knn_mi(x, y, k, base)
        mon.check(lo - 1e-6 <= got <= hi + 1e-6, "mutual_information.value", answer=got, low=lo, high=hi, k=k, base=base, n=n)
        e = el.entropy_per_meter()
        for m, v in ((el[1], x), (el[2], y)):
            mon.close(float(e[m.identifier]), knn_entropy(v, 3, 2), "entropy_per_meter.value", rtol=1e-5, atol=1e-5)
        mon.event("estimates compared", 4)
        mon.state("info", n, k, base)
    finally:
        ds.store.close()


def knn_entropy_long(v, k, base):
    s = np.sort(v)
    n = len(s)
    near = []
    for j in range(1, k + 1):       # the k-th nearest of 2k candidates on either side
        d = s[j:] - s[:-j]
        near.append(np.r_[d, np.full(j, np.inf)])
        near.append(np.r_[np.full(j, np.inf), d])
    nn = np.sort(np.array(near), axis=0)[k - 1]
    return float((digamma(n) - digamma(k) + np.log(2) + np.mean(np.log(nn))) / np.log(base))


def w_long(mon, rng):
    """More than 10000 samples: estimated as the mean over equal parts."""
    n = rng.choice([9999, 10000, 10001, 10300, 20001])
    d = make(rng, n, 2, 0, distinct=True)
    for i in (1, 2):
        df = d.df(1, i)
        df.iloc[:, 0] = df.values[:, 0] + rng.np.random(n) * 0.1
    ds = d.open()
    try:
        el = ds.buildings[1].elec
        x, y = d.df(1, 1).values[:, 0], d.df(1, 2).values[:, 0]
        parts = 1 if n <= 10000 else n // 10000 + 1
        k, base = rng.choice([(3, 2), (2, np.e)])
        mon.close(float(el[1].entropy(k=k, base=base)), np.mean([knn_entropy_long(q, k, base) for q in np.array_split(x, parts)]),
                  "long.entropy", rtol=1e-4, atol=1e-4, k=k, base=base, n=n)
        if n > 10000 and rng.chance(0.5):
            got = float(el[1].mutual_information(el[2], k=k, base=base))
            est = np.array([knn_mi(a, b, k, base) for a, b in zip(np.array_split(x, parts), np.array_split(y, parts))]).mean(axis=0)
            mon.check(est[0] - 1e-4 <= got <= est[1] + 1e-4, "long.mutual_information", answer=got, bounds=est, n=n)
        mon.event("long estimates", 1)
        mon.state("long", n, k)
    finally:
        ds.store.close()


def w_plots(mon, rng):
    import matplotlib.pyplot as plt
    n = rng.choice([20, 60])
    d = make(rng, n, 3, rng.choice([0, 0.1]))
    ds = d.open()
    try:
        el = ds.buildings[1].elec
        i = rng.choice([1, 2, 3])
        v = d.df(1, i).values[:, 0]
        plt.close("all")
        ax = plt.figure().gca()
        el[i].plot_spectrum(ax=ax)
        lx, ly = ax.lines[-1].get_xdata(), ax.lines[-1].get_ydata()
        want = np.abs(np.fft.fft(v))[: n // 2] / n
        mon.check(np.allclose(ly, want, rtol=1e-6, atol=1e-9), "spectrum.amplitude", "drawn spectrum")
        mon.check(np.allclose(lx, np.arange(n // 2) / (n * 6.0)), "spectrum.frequency", "drawn frequencies")
        plt.close("all")
        ax = plt.figure().gca()
        el[i].plot_lag(lag=1, ax=ax)
        off = np.asarray(ax.collections[-1].get_offsets())
        mon.check(np.allclose(off, np.c_[v[:-1], v[1:]]), "lag.points")
        plt.close("all")
        # plot() draws the power series resampled to the width
        ax = plt.figure().gca()
        unit = rng.choice(["W", "kW"])
        el[i].plot(ax=ax, unit=unit, width=rng.choice([10, 40]))
        y = np.asarray(ax.lines[-1].get_ydata(), dtype=float)
        y = y[~np.isnan(y)] * (1000 if unit == "kW" else 1)
        mon.check(len(y) and v.min() - 1e-6 <= y.min() and y.max() <= v.max() + 1e-6, "plot.range", "drawn power outside the measured range")
        plt.close("all")
        ax = el.plot_good_sections()
        mon.check(ax is not None, "good_sections.axes")
        plt.close("all")
        mon.state("plots", n, unit)
        mon.event("plots read back", 4)
    finally:
        plt.close("all")
        ds.store.close()
