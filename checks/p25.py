"""P25: edge detection, pairing of edges and the Hart 85 disaggregator."""
import numpy as np
import pandas as pd

from checks import gen
from nilmtk.disaggregate.hart_85 import Hart85, PairBuffer
from nilmtk.feature_detectors.cluster import hart85_means_shift_cluster
from nilmtk.feature_detectors.steady_states import find_steady_states, find_steady_states_transients
from nilmtk.legacy.disaggregate.hart_85 import PairBuffer as LegacyPairBuffer
from nilmtk.legacy.disaggregate.hart_85 import Hart85 as LegacyHart85

WORKLOADS = [("steps", 200, 3000), ("edges", 400, 6000), ("chunks", 80, 1000), ("pairs", 250, 4000), ("hart", 40, 400), ("centres", 40, 600)]
RULE = ("random step, ramp and noise signals with one or two measurements and random thresholds; steady states and "
        "transitions are compared with an independent segment-based reference, pairs with a reference buffer, Hart85 "
        "output with the states its transitions imply; distinct = (signal kind, #events, dims, thresholds, buffer size)")
ASSUMPTIONS = ["one or two measurements (active, reactive)", "Hart85: one measurement; sample at which an appliance "
               "switches and last sample of a chunk not judged", "no missing values (removed beforehand)"]
TECHNIQUE = "trace-specification monitor: detected edges vs segment reference; exactly-once and tolerance monitor on pairs"
NOTE = "Held on the executions observed; every edge, state and pair is compared."

START = ["2013-01-01", "2013-10-27 00:00"]


def steady_ref(v, times, thr, noise):
    """Segments: a segment begins at the first sample of a run of changes."""
    n, k = v.shape
    prev = np.vstack([np.zeros((1, k)), v[:-1]])
    ch = (np.abs(v - prev) > thr).any(axis=1)
    out = []
    onset = [i for i in range(n) if ch[i] and (i == 0 or not ch[i - 1])]
    last = np.zeros(k)
    seg_time = times[0]
    # estimate after sample i: mean since the last changing sample
    def est(i):         # estimate after sample i (inclusive)
        if i < 0:
            return np.zeros(k)
        j = i
        while j > 0 and not ch[j]:
            j -= 1
        return v[j:i + 1].mean(axis=0)
    for o in onset + [n]:
        e = est(o - 1)
        d = np.abs(np.abs(e - last) - noise)
        if ((d < 1e-6) & (d > 0)).any() or ((np.abs(e - noise) < 1e-6) & (e != noise)).any():
            raise Tie()
        if (np.abs(e - last) > noise).any():
            out.append((seg_time, e, e - last))
        last = e
        if o < n:
            seg_time = times[o]
    if out and (out[0][1] > noise).any() and out[0][0] == times[0]:
        out = out[1:]
    return out


class Tie(Exception):
    """A change whose size equals the noise level up to rounding: not judged."""


def compare(mon, got, want, k, what):
    ss, tr = got
    if not want:
        mon.check(len(ss) == 0 and len(tr) == 0, what + ".none", "events reported where there are none", got=got)
        return
    mon.check(list(ss.index) == [w[0] for w in want], what + ".state_times", got=list(ss.index)[:20], want=[w[0] for w in want][:20])
    mon.check(list(tr.index) == [w[0] for w in want], what + ".transition_times", got=list(tr.index)[:20], want=[w[0] for w in want][:20])
    mon.close(ss.values, np.array([w[1] for w in want]), what + ".levels", rtol=1e-9, atol=1e-6)
    mon.close(tr.values, np.array([w[2] for w in want]), what + ".sizes", rtol=1e-9, atol=1e-6)
    mon.equal(list(ss.columns), ["active average", "reactive average"][:k], what + ".columns")
    mon.equal(list(tr.columns), ["active transition", "reactive transition"][:k], what + ".columns")


def df_of(rng, v, tz="UTC"):
    cols = [("power", "active"), ("power", "reactive")][:v.shape[1]]
    return pd.DataFrame(v, index=gen.rand_index(rng, len(v), tz=tz), columns=gen.mi(cols))


def signal(rng, n, k):
    kind = rng.choice(["steps", "noisy", "ramps", "random", "small"])
    v = np.zeros((n, k))
    level = np.zeros(k) + rng.choice([0, 0, 30, 300])
    i = 0
    while i < n:
        d = rng.randrange(1, 9)
        if kind == "ramps" and rng.chance(0.4):
            for j in range(i, min(n, i + d)):
                level = level + rng.choice([40, 80, -60])
                v[j] = level
        else:
            v[i:i + d] = level
        i += d
        step = rng.np.integers(-400, 400, k) if kind != "small" else rng.np.integers(-20, 20, k)
        level = np.maximum(level + step, 0)
    if kind in ("noisy", "random"):
        v += rng.np.integers(-40, 40, v.shape) / 8.0
    if kind == "random":
        v += rng.np.integers(0, 100, v.shape)
    return kind, v


def w_edges(mon, rng):
    n, k = rng.choice([1, 2, 5, 40, 150]), rng.choice([1, 1, 2])
    kind, v = signal(rng, n, k)
    thr, noise = rng.choice([15, 15, 5, 50]), rng.choice([70, 70, 20, 200, 35])
    df = df_of(rng, v, tz=rng.choice([None, "UTC", "Europe/London"]))
    keep = df.copy()
    try:
        want = steady_ref(v, list(df.index), thr, noise)
    except Tie:
        return
    got = find_steady_states(df, state_threshold=thr, noise_level=noise)
    compare(mon, got, want, k, "edges")
    mon.check(df.equals(keep), "edges.arguments_unchanged")
    mon.state("edges", kind, k, min(len(want), 6), thr, noise, min(n, 5))
    mon.event("edges compared", len(want))


def w_steps(mon, rng):
    """Ideal on/off signals: exactly the switch instants and sizes."""
    n = rng.choice([30, 100])
    v, level, t, events = np.zeros((n, 1)), 0.0, 0, []
    base = rng.choice([0, 40])
    level = base
    i = 0
    while i < n:
        d = rng.randrange(3, 10)
        v[i:i + d] = level
        i += d
        if i < n:
            step = rng.choice([100, 250, 2000.5]) * (1 if level <= base or rng.chance(0.5) else -1)
            if level + step < 0:
                step = 300
            events.append((i, step))
            level += step
    df = df_of(rng, v)
    ss, tr = find_steady_states(df)
    mon.equal(list(tr.index), [df.index[i] for i, _ in events], "steps.times", "edges not at the switch instants")
    if events:
        mon.close(tr.values.ravel(), [s for _, s in events], "steps.sizes")
        mon.close(np.cumsum(tr.values.ravel()) + base, ss.values.ravel(), "steps.conservation",
                  "transitions do not add up to the steady levels")
    mon.state("steps", len(events), base)


class FakeGroup(object):
    def __init__(self, chunks):
        self.chunks, self.kw = chunks, None

    def load(self, **kw):
        self.kw = kw
        return iter(self.chunks)


def w_chunks(mon, rng):
    k = rng.choice([1, 2])
    chunks, want = [], []
    for _ in range(rng.randrange(0, 5)):
        kind, v = signal(rng, rng.choice([2, 20, 50]), k)
        df = df_of(rng, v)
        nan = rng.chance(0.4)
        if nan:
            df = df.mask(rng.np.random(v.shape) < rng.choice([0.2, 1.0]))
        chunks.append(df)
        c = df.dropna()
        if len(c):
            try:
                want += steady_ref(c.values, list(c.index), 15, 70)
            except Tie:
                return
    got = find_steady_states_transients(FakeGroup(chunks), [("power", "active")], 70, 15, sections="x")
    compare(mon, got, want, k, "chunks")
    mon.state("chunks", len(chunks), min(len(want), 5), k)


def pair_ref(trans, size, tol, pct, large, m):
    buf, pairs = [], []
    for t in trans:
        if len(buf) == size:
            buf = [b for b in buf if not b[1]]
        buf.append([t, False])
        if len(buf) > size:
            buf.pop(0)
        for dist in range(1, len(buf)):
            for i in range(len(buf) - dist):
                a, b = buf[i], buf[i + dist]
                if a[1] or b[1] or not a[0][1] > 0:
                    continue
                ok = True
                for x in range(1, m):
                    big = max(abs(a[0][x]), abs(b[0][x]))
                    lim = tol if big < large else pct * big
                    ok &= abs(a[0][x] + b[0][x]) < lim
                if ok:
                    a[1] = b[1] = True
                    pairs.append((a[0], b[0]))
    return pairs


def w_pairs(mon, rng):
    m = rng.choice([2, 2, 3])
    size = rng.choice([2, 3, 5, 20])
    tol, pct, large = rng.choice([100, 20, 35]), rng.choice([0.035, 0.1]), rng.choice([1000, 300])
    n = rng.choice([0, 1, 2, 10, 40])
    levels = [60.0, 150.0, 155.0, 1200.0, 2500.0]
    t0 = pd.Timestamp("2013-01-01")
    trans = []
    for i in range(n):
        p = rng.choice([1, -1]) * (rng.choice(levels) + rng.choice([0, 0, 10, -30, 60, tol]))
        if trans and trans[-1][1] > 0 and rng.chance(0.4):      # a partner at the edge of the tolerance
            q = trans[-1][1]
            p = -(q + rng.choice([1, -1]) * rng.choice([tol, pct * q, pct * q / (1 - pct), pct * large]) + rng.choice([-2, -0.5, 0.5, 2]))
        elif rng.chance(0.2):
            p = large + rng.choice([-30, -8, -1, 0, 1, 20])
        row = (t0 + pd.Timedelta(seconds=7 * i), p)
        if m == 3:
            row += (rng.choice([1, -1]) * rng.choice([5.0, 80.0, 1100.0]),)
        trans.append(row)
    cls = rng.choice([PairBuffer, LegacyPairBuffer])
    cols = [("power", rng.choice(["active", "apparent"]))] if m == 2 else [("power", "active"), ("power", "reactive")]
    use_hart = rng.chance(0.5)
    if use_hart:
        h = Hart85({}) if cls is PairBuffer else LegacyHart85()
        h.columns = cols
        h.transients = pd.DataFrame([t[1:] for t in trans], index=[t[0] for t in trans],
                                    columns=["active transition", "reactive transition"][:m - 1]) if trans else \
            pd.DataFrame(columns=["active transition", "reactive transition"][:m - 1])
        pairs = h.pair(size, tol, pct, large)
    else:
        b = cls(columns=cols, buffer_size=size, min_tolerance=tol, percent_tolerance=pct, large_transition=large,
                num_measurements=m)
        for t in trans:
            if len(b.transition_list) == size:
                b.clean_buffer()
                mon.check(not any(e[m] for e in b.transition_list), "pairs.cleaned")
            b.add_transition(t if rng.chance(0.7) else list(t))
            b.pair_transitions()
            mon.check(len(b.transition_list) <= size, "pairs.buffer_size")
        pairs = b.matched_pairs
    rows = [tuple(r) for r in pairs.itertuples(index=False)]
    # invariants
    used = [r[0] for r in rows] + [r[m] for r in rows]
    mon.equal(len(used), len(set(used)), "pairs.exactly_once", "a transition belongs to two pairs")
    byt = {t[0]: t for t in trans}
    for r in rows:
        mon.check(r[0] < r[m], "pairs.order", "OFF before ON", pair=r)
        mon.check(r[1] > 0, "pairs.on_positive", pair=r)
        mon.check(tuple(byt[r[0]]) == r[:m] and tuple(byt[r[m]]) == r[m:], "pairs.values", pair=r)
        for x in range(1, m):
            big = max(abs(r[x]), abs(r[m + x]))
            mon.check(abs(r[x] + r[m + x]) < (tol if big < large else pct * big), "pairs.tolerance", pair=r)
    want = pair_ref(trans, size, tol, pct, large, m)
    mon.equal(sorted((r[0], r[m]) for r in rows), sorted((a[0], b[0]) for a, b in want), "pairs.same",
              "other pairs than nearest-first matching gives", size=size, tol=tol)
    mon.state("pairs", m, size, min(n, 11), min(len(rows), 8), cls is PairBuffer, use_hart)
    mon.event("pairs judged", len(rows))


def house(rng, n):
    powers = rng.sample([100, 220, 800, 1500, 2600], rng.randrange(1, 4))
    sig, total = {}, np.zeros(n)
    busy = np.zeros(n + 2, dtype=bool)
    for p in powers:
        s = np.zeros(n)
        for _ in range(rng.randrange(2, 6)):
            a = rng.randrange(4, n - 30)
            b = a + rng.randrange(4, 20)
            if s[a - 2:b + 2].any() or busy[[a - 1, a, a + 1, b - 1, b, b + 1]].any():
                continue
            busy[[a, b]] = True
            s[a:b] = p
        sig[p] = s
        total += s
    return sig, total


def switched(tr, centroids, index):
    """Per centroid: list of (position, on?)."""
    out = {c: [] for c in range(len(centroids))}
    pos = {t: i for i, t in enumerate(index)}
    for t, p in zip(tr.index, tr.values.ravel() if len(tr) else []):
        c = int(np.argmin(np.abs(centroids - abs(p))))
        out[c].append((pos[t], p > 0))
    return out


def w_hart(mon, rng):
    n = rng.choice([150, 250])
    for _ in range(20):
        sig, total = house(rng, n)
        if all(s.any() for s in sig.values()):
            break
    else:
        return
    idx = gen.rand_index(rng, n, gaps=0, tz="UTC")
    col = gen.mi([("power", "active")])
    mk = lambda v, i=idx: pd.DataFrame(np.asarray(v, float).reshape(-1, 1), index=i, columns=col)
    base = rng.choice([0.0, 50.0])
    h = Hart85({})
    apps = [("a%d" % p, [mk(s)]) for p, s in sig.items()]
    h.partial_fit([mk(total + base)], apps)
    cents = h.centroids.values.ravel()
    for a, _ in apps:
        mon.check(0 <= h.best_matches[a] < len(cents), "hart.match")
    tests = []
    for _ in range(rng.randrange(1, 4)):
        k = rng.randrange(4)
        if k == 0:
            v = np.full(30, base)
        elif k == 1:
            v = np.concatenate([np.full(20, base), np.full(1, base + max(sig))])   # switches on at the very end
        else:
            v = total + base
        tests.append(mk(v, gen.rand_index(rng, len(v), gaps=0, tz="UTC")))
    out = h.disaggregate_chunk(tests)
    mon.equal(len(out), len(tests), "hart.one_per_chunk", "not one prediction per mains chunk")
    if rng.chance(0.3):
        path = gen.scratch("model.pickle")
        h.export_model(path)
        h2 = Hart85({})
        h2.import_model(path)
        for a, b in zip(out, h2.disaggregate_chunk(tests)):
            mon.check(a.equals(b), "hart.imported", "a model exported and imported again predicts something else")
    for t, o in zip(tests, out):
        mon.check(o.index.equals(t.index), "hart.index", "prediction not on the index of its chunk")
        mon.equal(list(o.columns), [a for a, _ in apps], "hart.appliances")
        ref = steady_ref(t.values, list(t.index), 15, 70)
        tr = pd.DataFrame([r[2] for r in ref], index=[r[0] for r in ref]) if ref else pd.DataFrame()
        sw = switched(tr, cents, t.index)
        for a, _ in apps:
            c = h.best_matches[a]
            ev = sw[c]
            state, want, free = 0, np.zeros(len(t)), np.zeros(len(t), dtype=bool)
            last = 0
            for p, on in ev + [(len(t), None)]:
                want[last:p] = state * int(cents[c])
                if p < len(t):
                    free[p] = True
                last, state = p, 1 if on else 0
            free[-1] = True
            got = o[a].values.astype(float)
            mon.check(set(np.unique(got)) <= {0.0, float(int(cents[c]))}, "hart.levels", got=np.unique(got), centroid=cents[c])
            mon.check(np.array_equal(got[~free], want[~free]), "hart.states",
                      "prediction does not follow the detected transitions", appliance=a,
                      wrong=np.flatnonzero((got != want) & ~free)[:10], events=ev[:10])
        mon.event("hart chunks judged")
    mon.state("hart", len(sig), len(cents), len(tests), base)


def w_centres(mon, rng):
    """Hart's clusters of matched on/off pairs: one centre per well separated level."""
    types = rng.choice([["active"], ["reactive"], ["apparent"], ["active", "reactive"], ["active", "apparent"]])
    columns = [("power", t) for t in types]
    k = rng.randrange(1, 5)
    levels = [{t: 100.0 * 6 ** i + 7 * rng.randrange(3) for t in types} for i in range(k)]
    rows, want = [], []
    n = rng.choice([4, 10, 30])
    which = list(range(k)) * n
    rng.shuffle(which)
    off = rng.chance(0.5)       # on and off edges differ a little; the level is the mean of both
    for i in which:
        row = {"T1 Time": 0, "T2 Time": 1}
        for t in ["active", "reactive", "apparent"]:
            lv = levels[i].get(t, 0.0)
            d = 4.0 if off else 0.0
            row["T1 " + t.capitalize()] = (lv + d) * (1 if lv else 0)
            row["T2 " + t.capitalize()] = -(lv - d) * (1 if lv else 0)
        rows.append(row)
    df = pd.DataFrame(rows)
    keep = df.copy()
    c = hart85_means_shift_cluster(df, columns)
    mon.check(df.equals(keep), "centres.argument_unchanged")
    mon.equal(list(c.columns), columns, "centres.columns")
    got = sorted(tuple(r) for r in c.values.tolist())
    # a centre is a mean of pair levels, so never outside their range; and no level is left without a centre of its own
    # unless mean shift's bandwidth (estimated from all the pairs) spans it
    for j, t in enumerate(types):
        vals = [levels[i][t] for i in range(k)]
        mon.check(all(min(vals) - 1e-6 <= g[j] <= max(vals) + 1e-6 for g in got), "centres.range", got=got, levels=vals)
    mon.check(1 <= len(got) <= k, "centres.number", got=got, levels=levels)
    if k == 1:
        mon.equal(got, [tuple(levels[0][t] for t in types)], "centres.level")
    # one pair whose edges may have the same sign (a small reactive step): still the mean of the two sizes
    one = {"T1 Time": 0, "T2 Time": 1}
    for t in ["active", "reactive", "apparent"]:
        one["T1 " + t.capitalize()] = float(rng.randrange(-40, 200))
        one["T2 " + t.capitalize()] = float(rng.randrange(-200, 40))
    c1 = hart85_means_shift_cluster(pd.DataFrame([one] * rng.randrange(1, 4)), columns)
    mon.equal(sorted(map(tuple, c1.values.tolist())), [tuple((abs(one["T1 " + t.capitalize()]) + abs(one["T2 " + t.capitalize()])) / 2 for t in types)],
              "centres.mean_of_sizes", "a centre is not the mean of the ON and OFF sizes", pair=one)
    mon.event("pairs clustered", len(rows))
    mon.state("centres", tuple(types), k, n, off, len(got))
