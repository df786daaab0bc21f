"""P32: plots draw exactly the data."""
import matplotlib
matplotlib.use("Agg")
import matplotlib.dates as mdates
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd

from checks import gen
from nilmtk.metergroup import MeterGroup
from nilmtk.plots import plot_series, plot_pairwise_heatmap, latexify, format_axes
from nilmtk.stats.dropoutrateresults import DropoutRateResults
from nilmtk.stats.goodsectionsresults import GoodSectionsResults
from nilmtk.timeframe import TimeFrame
from nilmtk.timeframegroup import TimeFrameGroup

WORKLOADS = [("series", 60, 900), ("frames", 60, 900), ("heatmap", 12, 150), ("style", 12, 120), ("meter", 40, 200), ("group", 48, 200),
             ("charts", 8, 80), ("graphs", 8, 80), ("dataset", 8, 80)]
RULE = ("random series, time frame groups, results, meters, groups and datasets (gaps, zones, clock changes, one or several buildings) are "
        "plotted off screen and the artists (lines, rectangles, bars, polygons, texts, ticks) are read back and compared with the data; "
        "distinct = (kind of plot, options, size)")
ASSUMPTIONS = ["the Agg backend", "positions of labels are only judged in the energy bar"]
TECHNIQUE = "differential monitor: data of the drawn artists vs the data plotted"
NOTE = "Held on the plots observed; every drawn line, rectangle and bar is read back."
ACT = ("power", "active")
DAY = 86400e9


def fresh():
    plt.close("all")
    return plt.subplots()


def days(index):
    """Instants as matplotlib dates (days since the epoch, UTC)."""
    return gen.ns(pd.DatetimeIndex(index)) / DAY


def rects(ax):
    """Rectangles drawn on ax as rows (left in days, bottom, width in days, height)."""
    out = []
    for p in ax.patches:
        if not isinstance(p, plt.Rectangle):
            continue
        (x0, y0), (x1, y1) = ax.transData.inverted().transform(p.get_verts())[[0, 2]]
        out.append((min(x0, x1), min(y0, y1), abs(x1 - x0), abs(y1 - y0)))
    return np.array(sorted(out)).reshape(-1, 4)


def want_rects(tfs, y=0, height=1, gap=0.05):
    return np.array(sorted((t.start.value / DAY, y + gap, (t.end.value - t.start.value) / DAY, height - 2 * gap)
                           for t in tfs)).reshape(-1, 4)


def same_rects(mon, ax, want, mech):
    got = rects(ax)
    mon.equal(got.shape, want.shape, mech + ".number", "not one rectangle per section")
    if len(want):
        mon.check(np.allclose(got, want, rtol=0, atol=2e-5), mech, "drawn sections differ from the data", got=got[:4], want=want[:4])
        (x0, x1), (y0, y1) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
        eps = 1e-4
        mon.check((got[:, 0] >= x0 - eps).all() and (got[:, 0] + got[:, 2] <= x1 + eps).all() and (got[:, 1] >= y0 - eps).all()
                  and (got[:, 1] + got[:, 3] <= y1 + eps).all(), mech + ".visible", "sections lie outside the axes' limits",
                  limits=(x0, x1, y0, y1), rects=got[:4])
        mon.check(isinstance(ax.xaxis.get_major_formatter(), (mdates.DateFormatter, mdates.AutoDateFormatter, mdates.ConciseDateFormatter)),
                  mech + ".dates", "the axis does not show dates", formatter=ax.xaxis.get_major_formatter())
    mon.event("rectangles", len(want))


def w_series(mon, rng):
    fig, ax = fresh()
    n = rng.choice([1, 2, 7, 100])
    tz = rng.choice([None, "UTC", "Europe/London", "US/Eastern"])
    idx = gen.rand_index(rng, n, tz=tz, gaps=0.2)
    s = pd.Series(gen.rand_values(rng, n, 1, nan=rng.choice([0, 0.2]))[:, 0], index=idx)
    keep = s.copy()
    mode = rng.choice(["ax", "gca", "fig"])
    kw = {}
    if mode == "ax":
        kw["ax"] = ax
    if mode == "fig":
        kw.update(ax=ax, fig=fig)
    local = rng.chance(0.5)
    colour = rng.choice(["r", "k"])
    ret = plot_series(s, tz_localize=local, color=colour, label="x", **kw)
    mon.check(ret is ax, "series.axes", "drawn on other axes")
    mon.equal(len(ax.lines), 1, "series.lines")
    l = ax.lines[0]
    want = days(idx if tz else idx)
    mon.close(l.get_xdata().astype(float), want, "series.times", rtol=0, atol=2e-8)
    mon.check(np.array_equal(np.asarray(l.get_ydata(), dtype=float), s.values, equal_nan=True), "series.values")
    mon.equal((l.get_color(), l.get_label()), (colour, "x"), "series.kwargs")
    f = ax.xaxis.get_major_formatter()
    shown = f(want[0])
    first = idx[0] if (tz is None or local) else idx[0].tz_convert("UTC")
    mon.equal(shown, first.strftime("%d/%m/%y %H:%M:%S"), "series.tick_zone", "time shown in the wrong zone", tz=tz, local=local)
    mon.check(s.equals(keep), "series.argument_unchanged")
    mon.check(plot_series(s[:0], ax=ax) is ax and plot_series(None, ax=ax) is ax and len(ax.lines) == 1, "series.empty")
    mon.state("series", mode, tz, n, local)


def rand_group(rng, tz):
    t = pd.Timestamp("2014-03-29 20:00").tz_localize("UTC").tz_convert(tz) if tz else pd.Timestamp("2014-03-29 20:00")
    out = []
    for _ in range(rng.randrange(0, 6)):
        e = t + pd.Timedelta(minutes=rng.randrange(1, 600))
        out.append(TimeFrame(t, e))
        t = e + pd.Timedelta(minutes=rng.randrange(1, 600))
    return out


def w_frames(mon, rng):
    fig, ax = fresh()
    tz = rng.choice([None, "UTC", "Europe/London"])
    tfs = rand_group(rng, tz)
    kind = rng.choice(["group", "group", "good", "dropout"])
    kw = {}
    if rng.chance(0.5):
        kw["ax"] = ax
    if kind == "group":
        if rng.chance(0.7):
            kw.update(y=rng.choice([0, 3]), height=rng.choice([1, 0.5]), gap=rng.choice([0, 0.1]))
        ret = TimeFrameGroup(tfs).plot(**kw)
        mon.check(ret is ax, "frames.axes")
        geo = {k: v for k, v in kw.items() if k != "ax"}
        same_rects(mon, ax, want_rects(tfs, **geo), "frames.rectangles")
    elif kind == "good" and tfs:
        r = GoodSectionsResults(max_sample_period=10)
        r.append(TimeFrame(tfs[0].start, tfs[-1].end), dict(sections=[list(tfs)]))
        r.plot(ax=ax)
        same_rects(mon, ax, want_rects(tfs), "good.rectangles")
    elif tfs:
        r = DropoutRateResults()
        rates = [rng.randrange(1, 9) / 8.0 for _ in tfs]
        for t, x in zip(tfs, rates):
            r.append(t, dict(dropout_rate=x, n_samples=5))
        r.plot(ax=ax)
        want = np.array(sorted((t.start.value / DAY, 0, (t.end.value - t.start.value) / DAY, x) for t, x in zip(tfs, rates)))
        same_rects(mon, ax, want, "dropout.rectangles")
    mon.state("frames", kind, len(tfs), tz, sorted(kw))


def w_heatmap(mon, rng):
    plt.close("all")
    n = rng.choice([2, 3, 6])
    labels = ["m%d" % i for i in range(n)]
    v = rng.np.integers(1, 80, (n, n)) / 80.0
    log = rng.chance(0.4)
    plot_pairwise_heatmap(pd.DataFrame(v, index=labels, columns=labels), labels, log=log)
    fig = plt.gcf()
    mesh = [c for a in fig.axes for c in a.collections if hasattr(c, "get_array") and c.get_array() is not None and c.get_array().size == n * n]
    mon.check(len(mesh) >= 1, "heatmap.drawn")
    mon.check(np.array_equal(np.asarray(mesh[0].get_array()).reshape(n, n), v), "heatmap.values")
    mon.equal(isinstance(mesh[0].norm, matplotlib.colors.LogNorm), log, "heatmap.norm")
    ax = mesh[0].axes
    mon.equal([t.get_text() for t in ax.get_xticklabels()], labels, "heatmap.labels")
    mon.equal([t.get_text() for t in ax.get_yticklabels()], labels, "heatmap.labels")
    mon.check(not any(t.tick1line.get_visible() or t.tick2line.get_visible() for a in (ax.xaxis, ax.yaxis) for t in a.get_major_ticks()),
              "heatmap.ticks_off")
    mon.state("heatmap", n, log)


def w_style(mon, rng):
    with matplotlib.rc_context():
        cols = rng.choice([1, 2])
        size = rng.choice([6, 8, 11])
        w = rng.choice([None, 3.0, 12.0])
        h = rng.choice([None, 2.0, 20.0])
        latexify(fig_width=w, fig_height=h, columns=cols, fontsize=size)
        rc = matplotlib.rcParams
        ew = w if w is not None else {1: 3.39, 2: 6.9}[cols]
        eh = min(8.0, h if h is not None else ew * (5 ** 0.5 - 1) / 2)
        mon.close(list(rc["figure.figsize"]), [ew, eh], "style.size")
        mon.check(all(rc[k] == size for k in ("axes.labelsize", "axes.titlesize", "font.size", "legend.fontsize", "xtick.labelsize",
                                              "ytick.labelsize")), "style.fontsize")
        mon.equal((rc["text.usetex"], list(rc["font.family"])), (True, ["serif"]), "style.latex")
        mon.raises(AssertionError, lambda: latexify(columns=3), "style.columns")
    fig, ax = fresh()
    mon.check(format_axes(ax, "red") is ax, "style.axes")
    mon.equal([ax.spines[s].get_visible() for s in ("top", "right", "left", "bottom")], [False, False, True, True], "style.spines")
    mon.equal(ax.spines["left"].get_edgecolor(), (1.0, 0.0, 0.0, 1.0), "style.spine_colour")
    mon.state("style", cols, w, h)


def w_meter(mon, rng):
    n = rng.choice([30, 200, 900])
    d = gen.house(rng, n=n, nsub=1, gaps=rng.choice([0, 0.05]), name="plots", period=rng.choice([6, 60]))
    ds = d.open()
    m = ds.buildings[1].elec[2]
    kind = rng.choice(["power", "power", "hist", "activity", "autocorrelation"])
    fig, ax = fresh()
    given = rng.chance(0.5)
    kw = dict(ax=ax) if given else {}
    if kind == "power":
        width = rng.choice([5, 50, 800])
        unit = rng.choice(["W", "kW"])
        ret = m.plot(width=width, unit=unit, plot_kwargs=dict(color="g"), **kw)
        period = int(round(m.get_timeframe().timedelta.total_seconds() / width)) or None
        want = m.power_series_all_data(sections=[m.get_timeframe()], resample=True, **(dict(sample_period=period) if period else {}))
        mon.check(ret is ax, "meter.axes")
        line = [l for l in ax.lines if len(l.get_ydata())]
        mon.equal(len(line), 1, "meter.lines")
        y = np.asarray(line[0].get_ydata(), dtype=float)
        want = want / 1000 if unit == "kW" else want
        mon.equal(len(y), len(want), "meter.points", "not one point per resampled sample", width=width)
        mon.check(np.allclose(y, want.values, rtol=1e-6, equal_nan=True), "meter.values", got=y[:4], want=want.values[:4])
        mon.equal(ax.get_ylabel(), "Power (%s)" % unit, "meter.label")
    elif kind == "hist":
        bins = rng.choice([5, 20])
        r = rng.choice([(0, 3000), (None, 2500), (100, None), None])
        m.plot_power_histogram(range=r, bins=bins, **kw)
        v = d.df(1, 2).values.ravel()
        lo, hi = (None, None) if r is None else r
        lo = m.on_power_threshold() if lo is None else lo
        hi = v.max() if hi is None else hi
        want, edges = np.histogram(v, bins=bins, range=(lo, hi))
        p = ax.collections[0].get_paths()[0].vertices
        top = sorted({(round(float(x), 6), int(round(y))) for x, y in p})
        need = {(round(float(x), 6), int(c)) for x, c in zip(edges[:-1], want)}
        mon.check(need <= set(top), "histogram.drawn", "the curve does not pass through the counts", got=top[:8], want=sorted(need)[:8])
    elif kind == "activity":
        h = m.activity_histogram(bin_duration="h", period="D")
        m.plot_activity_histogram(bin_duration="h", period="D", **kw)
        mon.check(np.array_equal([p.get_height() for p in ax.patches], h), "activity.bars")
        mon.close([p.get_x() + p.get_width() / 2 for p in ax.patches], np.arange(24.0), "activity.positions")
    else:
        m.plot_autocorrelation(**kw)
        v = d.df(1, 2).values.ravel()
        line = ax.lines[-1].get_ydata()
        mu, c0 = v.mean(), ((v - v.mean()) ** 2).sum()
        want = [((v[:len(v) - h] - mu) * (v[h:] - mu)).sum() / c0 for h in range(1, min(len(v), 40))]
        mon.check(np.allclose(np.asarray(line)[:len(want)], want, rtol=0, atol=1e-6), "autocorrelation.values")
    mon.state("meter", kind, n, given)
    ds.store.close()


def w_group(mon, rng, kinds=("separate lines", "sum", "area", "good", "when_on")):
    n = rng.choice([100, 400])
    nsub = rng.randrange(2, 5)
    d = gen.house(rng, n=n, nsub=nsub, gaps=rng.choice([0, 0.02]), name="plots")
    ds = d.open()
    elec = ds.buildings[1].elec
    sub = elec.submeters()
    kind = rng.choice(kinds)
    fig, ax = fresh()
    if kind in ("separate lines", "sum"):
        width = rng.choice([10, 50])
        g = sub if rng.chance(0.5) else elec
        if rng.chance(0.5) and nsub > 2:        # a group of a meter and a group
            g = MeterGroup([sub.meters[0], MeterGroup(sub.meters[1:])] + ([elec.mains()] if rng.chance(0.4) else []))
            if kind != "sum" and rng.chance(0.4):
                g = MeterGroup(g.meters[::-1])
        opts, scale, tf = {}, 1.0, None
        if rng.chance(0.4):
            opts["unit"], scale = "kW", 1000.0
        if rng.chance(0.4):
            idx = d.df(1, 1).index
            tf = TimeFrame(idx[len(idx) // 4], idx[len(idx) // 4 * 3])
            opts["timeframe"] = tf
        span = lambda m: tf or m.get_timeframe()
        rate = lambda m: int(round(span(m).timedelta.total_seconds() / width))
        ret = g.plot(kind=kind, width=width, ax=ax, **opts)
        ys = [np.asarray(l.get_ydata(), dtype=float) for l in ret.lines if len(l.get_ydata())]
        if kind == "sum":
            ws = [g.power_series_all_data(sections=[span(g)], resample=True, sample_period=rate(g)).values / scale]
        else:
            ws = [m.power_series_all_data(sections=[span(m)], resample=True, sample_period=rate(m)).values / scale for m in g.meters]
        mon.equal([len(y) for y in ys], [len(w) for w in ws], "group.lines", kind=kind)
        mon.check(all(np.allclose(a, b, rtol=1e-6, equal_nan=True) for a, b in zip(ys, ws)), "group.values", kind=kind)
    elif kind == "area":
        unit = rng.choice(["W", "kW"])
        thr = rng.choice([None, 100.0])
        ax, df = sub.plot(kind="area", width=20, unit=unit, threshold=thr)
        tf = sub.get_timeframe()
        want = sub.dataframe_of_meters(sections=[tf], resample=True, sample_period=int(round(tf.timedelta.total_seconds() / 20)))
        v = want.values.copy()
        if thr is not None:
            v[v <= thr] = 0
        if unit == "kW":
            v = v / 1000
        mon.check(np.allclose(df.values.astype(float), v, rtol=1e-5, equal_nan=True), "area.values")
        mon.equal(sorted(df.columns), sorted(m.label(pretty=True) for m in sub.meters), "area.labels")
    elif kind == "energy bar":
        mains = elec.mains()
        plt.close("all")
        sub.plot(kind="energy bar", mains=mains)
        ax = plt.gca()
        e = sub.energy_per_meter(mains=mains, per_period="D", use_meter_labels=True).sort_values(ascending=False)
        hs = [p.get_height() for p in ax.patches]
        mon.check(np.allclose(np.abs(hs), np.abs(e.values), rtol=1e-6, atol=1e-9), "bar.heights", got=hs, want=e.values)
        pos = int((e > 0).sum())     # sorted: these bars are stacked first
        mon.close([t.xy[1] for t in ax.texts][:pos], (e.cumsum() - e / 2).values[:pos], "bar.label_height", rtol=1e-6, atol=1e-9)
        txt = [t.get_text() for t in ax.texts]
        mon.equal(txt, ["%s (%.2f)" % (l, x) for l, x in e.items()], "bar.labels")
    elif kind == "sankey":
        plt.close("all")
        elec.plot(kind="sankey")
        txt = [t.get_text() for t in plt.gca().texts]
        f = sub.fraction_per_meter()
        mon.check(all(any(t.startswith(m.appliances[0].type["type"]) for t in txt) for m in sub.meters), "sankey.labels", got=txt)
        for m in sub.meters:
            t = [t for t in txt if t.startswith(m.appliances[0].type["type"])][0]
            mon.close(float(t.split("\n")[1]), f[m.instance()] if m.instance() in f.index else f[m.identifier], "sankey.flows", rtol=1e-3, atol=1e-3)
    elif kind == "good":
        lab = rng.choice(["instance", "label", None])
        elec.plot_good_sections(ax=ax, label_func=lab)
        ms = sorted(elec.all_meters(), key=lambda m: m.instance(), reverse=True)
        want = np.vstack([want_rects(m.good_sections(), y=i) for i, m in enumerate(ms)])
        want = want[np.lexsort(want.T[::-1])]
        same_rects(mon, ax, want, "good.rectangles")
        f = ax.yaxis.get_major_formatter()
        texts = [f(i + 0.5, i) for i in range(len(ms))]
        if lab:
            mon.equal(texts, [getattr(m, lab)() for m in ms], "good.labels", "a row carries the label of another meter")
    elif kind == "when_on":
        plt.close("all")
        thr = rng.choice([500, 1500])
        ax = sub.plot_when_on(on_power_threshold=thr)
        ys = np.concatenate([np.asarray(l.get_ydata(), dtype=float) for l in ax.lines] or [np.zeros(0)])
        ons = [sum(int(c.sum()) for c in m.when_on(on_power_threshold=thr)) for m in sub.meters]
        mon.equal([int((ys == i).sum()) for i in range(len(ons))], ons, "when_on.marks", "not one mark per 'on' sample in the meter's row")
        mon.equal(len(ys), sum(ons), "when_on.marks_total")
        mon.equal([t.get_text() for t in ax.get_yticklabels()], list(sub.get_labels(list(sub.identifier.meters))), "when_on.labels")
    elif kind == "wiring":
        g, ax = elec.draw_wiring_graph()
        mon.equal(sorted((a.instance(), b.instance()) for a, b in g.edges()), sorted((1, m.instance()) for m in sub.meters), "wiring.edges")
    else:
        plt.close("all")
        fig, axes = plt.subplots(nsub, 1, squeeze=rng.chance(0.5))
        keys = [m.instance() for m in sub.meters]
        rng.shuffle(keys)
        bins = [rng.choice([3, 9]) for _ in keys]
        out = elec.plot_multiple(axes, keys, "plot_power_histogram", kwargs_per_meter=dict(bins=bins), range=(0, 3000))
        mon.equal([a.get_title() for a in out], [elec[k].label(pretty=True) for k in keys], "multiple.titles")
        for a, k, b in zip(out, keys, bins):
            want, edges = np.histogram(d.df(1, k).values, bins=b, range=(0, 3000))
            p = a.collections[0].get_paths()[0].vertices
            have = {(round(float(x), 6), int(round(y))) for x, y in p}
            mon.check({(round(float(x), 6), int(c)) for x, c in zip(edges[:-1], want)} <= have, "multiple.data", meter=k, bins=b)
        mon.raises(ValueError, lambda: elec.plot_multiple(axes, keys[:-1], "plot_power_histogram"), "multiple.lengths")
    mon.raises(ValueError, lambda: elec.plot(kind="nonsense"), "group.kind")
    mon.state("group", kind, nsub, n, *(sorted(opts) + [any(isinstance(m, MeterGroup) for m in g.meters)] if kind in ("sum", "separate lines") else []))
    ds.store.close()


def w_dataset(mon, rng):
    plt.close("all")
    d = None
    nb = rng.choice([1, 1, 2, 3])
    for b in range(1, nb + 1):
        d = gen.house(rng, n=100, nsub=rng.randrange(1, 4), name="plots", b=b, data=d, gaps=0.05)
    ds = d.open()
    kind = rng.choice(["good", "hist"])
    axes = None
    if rng.chance(0.4):
        axes = [plt.figure().gca() for _ in range(nb)]
    if kind == "good":
        out = ds.plot_good_sections(axes=axes, label_func=rng.choice([None, "instance"]))
        mon.equal(len(out), nb, "dataset.axes")
        for ax, e in zip(out, ds.elecs()):
            ms = sorted(e.all_meters(), key=lambda m: m.instance(), reverse=True)
            want = np.vstack([want_rects(m.good_sections(), y=i, gap=0) for i, m in enumerate(ms)])
            same_rects(mon, ax, want[np.lexsort(want.T[::-1])], "dataset.good_sections")
            mon.equal(ax.get_title(), "House %d" % e.building(), "dataset.title")
    else:
        out = ds.plot_mains_power_histograms(axes=axes, bins=7, range=(0, 3000))
        mon.equal(len(out), nb, "dataset.axes")
        for ax, e in zip(out, ds.elecs()):
            want, edges = np.histogram(d.df(e.building(), 1).values, bins=7, range=(0, 3000))
            have = {(round(float(x), 6), int(round(y))) for x, y in ax.collections[0].get_paths()[0].vertices}
            mon.check({(round(float(x), 6), int(c)) for x, c in zip(edges[:-1], want)} <= have, "dataset.histogram", building=e.building())
            mon.equal(ax.get_title(), "House %d" % e.building(), "dataset.title")
    mon.state("dataset", kind, nb, axes is None)
    ds.store.close()


def w_charts(mon, rng):
    w_group(mon, rng, ("energy bar", "sankey"))


def w_graphs(mon, rng):
    w_group(mon, rng, ("wiring", "multiple"))
