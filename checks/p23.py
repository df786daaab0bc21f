"""P23: factorial hidden Markov model."""
import itertools

import numpy as np
import pandas as pd
from hmmlearn import hmm

from checks import gen
from nilmtk.disaggregate import fhmm_exact as new
from nilmtk.disaggregate import FHMMExact
from nilmtk.legacy.disaggregate import fhmm_exact as legacy

WORKLOADS = [("sorting", 300, 5000), ("combine", 200, 3000), ("viterbi", 80, 1000), ("trained", 16, 120), ("missing", 8, 60), ("legacy", 14, 150)]
RULE = ("random HMM parameters (unsorted, duplicate means, deterministic transitions) are sorted, combined, decoded and "
        "used to disaggregate; compared with explicit permutations, products and an own Viterbi search; distinct = "
        "(#appliances, #states each, ties, sequence length)")
ASSUMPTIONS = ["one measurement", "mains without missing values", "paths of equal likelihood may be chosen either way"]
TECHNIQUE = "differential monitor: parameters and paths vs explicit products and log-likelihood maximisation"
NOTE = "Held on the executions observed; every combined state and predicted sample is compared."


def stoch(rng, k, rows=None):
    a = rng.np.random((rows or 1, k)) + 0.02
    if rng.chance(0.2):
        a[:, rng.randrange(k)] += 5
    a /= a.sum(axis=1, keepdims=True)
    return a if rows else a[0]


def params(rng, k=None, ties=0.3):
    k = k or rng.randrange(1, 4)
    means = rng.np.integers(rng.choice([0, 0, -300]), 400, (k, 1)).astype(float) * rng.choice([1, 7])
    if k > 1 and rng.chance(ties):
        means[1] = means[0]
    return stoch(rng, k), means, rng.np.random((k, 1, 1)) + 1, stoch(rng, k, k)


def w_sorting(mon, rng):
    mod = rng.choice([new, legacy])
    k = rng.choice([1, 2, 3, 4, 6])
    pi, mu, cov, A = params(rng, k)
    copies = [x.copy() for x in (pi, mu, cov, A)]
    p2, m2, c2, A2 = mod.sort_learnt_parameters(pi, mu, cov, A)
    mon.check(all(np.array_equal(a, b) for a, b in zip((pi, mu, cov, A), copies)), "sort.arguments_unchanged")
    mon.check(np.array_equal(m2.ravel(), np.sort(mu.ravel())), "sort.means", got=m2.ravel())
    # some permutation explains everything
    perms = [p for p in itertools.permutations(range(k)) if np.array_equal(mu.ravel()[list(p)], m2.ravel())]
    ok = any(np.array_equal(p2, pi[list(p)]) and np.array_equal(c2, cov[list(p)]) and
             np.array_equal(A2, A[np.ix_(p, p)]) for p in perms)
    mon.check(ok, "sort.consistent", "parameters of the states were not moved together", means=mu.ravel(), pi=pi, got=p2)
    mon.close(p2.sum(), 1.0, "sort.probability")
    mon.close(A2.sum(axis=1), np.ones(k), "sort.probability")
    mon.state("sort", k, len(set(mu.ravel())), mod is new)


def make_hmm(rng, k=None, ties=0.0):
    pi, mu, cov, A = new.sort_learnt_parameters(*params(rng, k, ties))
    h = hmm.GaussianHMM(len(pi), "full")
    h.startprob_, h.transmat_, h.means_, h.covars_ = pi, A, mu, cov
    return h


def w_combine(mon, rng):
    mod = rng.choice([new, legacy])
    n = rng.randrange(1, 4)
    model = {"app%d" % i: make_hmm(rng, ties=0.2) for i in range(n)}
    names = list(model)
    c = mod.create_combined_hmm(model)
    sizes = [len(model[a].startprob_) for a in names]
    combos = list(itertools.product(*[range(s) for s in sizes]))
    K = len(combos)
    mon.equal(c.n_components, K, "combine.size")
    pi = np.array([np.prod([model[a].startprob_[s] for a, s in zip(names, co)]) for co in combos])
    mon.close(np.asarray(c.startprob_), pi, "combine.startprob")
    A = np.array([[np.prod([model[a].transmat_[x, y] for a, x, y in zip(names, p, q)]) for q in combos] for p in combos])
    mon.close(np.asarray(c.transmat_), A, "combine.transmat")
    mu = np.array([sum(model[a].means_[s, 0] for a, s in zip(names, co)) for co in combos])
    mon.close(np.asarray(c.means_).ravel(), mu, "combine.means", "mean of a joint state is not the sum of its appliances'")
    # decoding every joint state gives back its appliance states
    cent = {a: model[a].means_.ravel().tolist() for a in names}
    states, power = mod.decode_hmm(K, cent, names, np.arange(K))
    for j, a in enumerate(names):
        mon.check(list(states[a]) == [co[j] for co in combos], "decode.states", appliance=a, got=list(states[a]),
                  want=[co[j] for co in combos])
        mon.close(power[a], [cent[a][co[j]] for co in combos], "decode.power", appliance=a)
    seq = rng.np.integers(0, K, 30)
    _, power = mod.decode_hmm(30, cent, names, seq)
    mon.close(sum(power[a] for a in names), mu[seq], "decode.conservation", "decoded powers do not add up to the joint state")
    mon.state("combine", tuple(sizes), mod is new)


def viterbi_best(pi, A, mu, var, x):
    with np.errstate(divide="ignore"):
        lp, lA = np.log(pi), np.log(A)
    e = -0.5 * (x[:, None] - mu[None, :]) ** 2 / var - 0.5 * np.log(2 * np.pi * var)
    d = lp + e[0]
    for t in range(1, len(x)):
        d = (d[:, None] + lA).max(axis=0) + e[t]
    return d.max(), e, lp, lA


def path_ll(path, e, lp, lA):
    s = lp[path[0]] + e[0, path[0]]
    for t in range(1, len(path)):
        s += lA[path[t - 1], path[t]] + e[t, path[t]]
    return s


def judge(mon, rng, f, names, tests):
    out = f.disaggregate_chunk(tests)
    mon.equal(len(out), len(tests), "predict.one_per_chunk")
    means = [np.round(f.individual[a].means_.ravel()) for a in names]
    exact = [f.individual[a].means_.ravel() for a in names]
    combos = list(itertools.product(*[range(len(m)) for m in means]))
    mu = np.array([sum(m[s] for m, s in zip(exact, co)) for co in combos])
    pi = np.array([np.prod([f.individual[a].startprob_[s] for a, s in zip(names, co)]) for co in combos])
    A = np.array([[np.prod([f.individual[a].transmat_[x, y] for a, x, y in zip(names, p, q)]) for q in combos] for p in combos])
    distinct = len({tuple(m[s] for m, s in zip(means, co)) for co in combos}) == len(combos)
    for t, o in zip(tests, out):
        mon.equal(len(o), len(t), "predict.length")
        mon.check(set(o.columns) == set(names) and len(o.columns) == len(names), "predict.appliances")
        if not len(t):
            continue
        for a, m in zip(names, means):
            mon.check(np.isin(o[a].values.astype(float), m).all(), "predict.levels", appliance=a)
        if not distinct:
            continue
        lut = {tuple(m[s] for m, s in zip(means, co)): i for i, co in enumerate(combos)}
        path = [lut[tuple(float(o[a].values[i]) for a in names)] for i in range(len(t))]
        best, e, lp, lA = viterbi_best(pi, A, mu, 5.0, t.values.ravel())
        ll = path_ll(path, e, lp, lA)
        mon.check(ll >= best - 1e-6 * max(1, abs(best)), "predict.most_likely", "a more likely state sequence exists",
                  got=ll, best=best)
        mon.event("samples decoded", len(t))


def mains(rng, names, ind, n):
    v = np.zeros(n)
    for a in names:
        m = ind[a].means_.ravel()
        s = np.repeat(rng.np.integers(0, len(m), n), rng.randrange(1, 5))[:n]
        v += m[s]
    v += rng.np.normal(0, rng.choice([0.1, 2, 20]), n)
    return pd.DataFrame(v.reshape(-1, 1), index=gen.rand_index(rng, n, tz="UTC"), columns=gen.mi([("power", "active")]))


def w_viterbi(mon, rng):
    n = rng.randrange(1, 4)
    names = ["app%d" % i for i in range(n)]
    f = FHMMExact({})
    f.individual = {a: make_hmm(rng) for a in names}
    f.app_names = names
    f.model = new.create_combined_hmm(f.individual)
    tests = [mains(rng, names, f.individual, rng.choice([1, 2, 20, 60])) for _ in range(rng.randrange(1, 3))]
    if rng.chance(0.3):
        tests.append(tests[0].iloc[:0])
    judge(mon, rng, f, names, tests)
    mon.state("viterbi", n, [len(t) for t in tests])


def w_trained(mon, rng):
    n = rng.randrange(1, 4)
    names = ["app%d" % i for i in range(n)]
    N = 200
    train, total = [], np.zeros(N)
    for i, a in enumerate(names):
        on = np.repeat(rng.np.random(N) < 0.5, 6)[:N]
        v = np.where(on, [100, 900, 2200][i], 0) + rng.np.integers(0, 16, N) / 8.0
        total += v
        df = pd.DataFrame(v.reshape(-1, 1), index=gen.rand_index(rng, N, tz="UTC"), columns=gen.mi([("power", "active")]))
        train.append((a, [df.iloc[:N // 2], df.iloc[N // 2:]]))
    f = FHMMExact({"num_of_states": rng.choice([2, 2, 0])})
    f.partial_fit([train[0][1][0]], train)
    mon.equal(list(f.individual), names, "train.appliances")
    for a in names:
        h = f.individual[a]
        m = h.means_.ravel()
        mon.check(bool(np.all(np.diff(m) >= 0)), "train.sorted", means=m)
        mon.close(h.transmat_.sum(axis=1), np.ones(len(m)), "train.stochastic")
        mon.close(h.startprob_.sum(), 1.0, "train.stochastic")
    tests = [mains(rng, names, f.individual, 50)]
    judge(mon, rng, f, names, tests)
    mon.state("trained", n, f.num_of_states)


def w_missing(mon, rng):
    """Missing samples are ignored when training: the models are those of the samples that are present."""
    n = rng.randrange(1, 3)
    N = 240
    holed, dense = [], []
    for i in range(n):
        on = np.repeat(rng.np.random(N) < 0.5, 6)[:N]
        level = [[-600, 350], [200, 900]][i] if rng.chance(0.4) else [[0, 100], [30, 900]][i]
        v = np.where(on, level[1], level[0]) + rng.np.integers(0, 16, N) / 8.0
        v[rng.np.random(N) < rng.choice([0.1, 0.3])] = np.nan
        df = pd.DataFrame(v.reshape(-1, 1), index=gen.rand_index(rng, N, tz="UTC"), columns=gen.mi([("power", "active")]))
        cut = rng.randrange(20, N - 20)
        holed.append(("app%d" % i, [df.iloc[:cut], df.iloc[cut:]]))
        dense.append(("app%d" % i, [df.iloc[:cut].dropna(), df.iloc[cut:].dropna()]))
    fits = []
    seed = rng.randrange(2 ** 31)
    k = rng.choice([0, 2])
    for data in (holed, dense):
        f = FHMMExact({"num_of_states": k})
        np.random.seed(seed)
        f.partial_fit([data[0][1][0]], data)
        fits.append(f)
    a, b = fits
    mon.equal(list(a.individual), list(b.individual), "missing.appliances")
    for name, (_, frames) in zip(a.individual, dense):
        ha, hb = a.individual[name], b.individual[name]
        mon.close(ha.means_.ravel(), hb.means_.ravel(), "missing.means", "missing samples changed the learnt states", appliance=name)
        mon.close(np.asarray(ha.transmat_), np.asarray(hb.transmat_), "missing.transitions", appliance=name)
        m = hb.means_.ravel()
        x = np.concatenate([f.values.ravel() for f in frames])
        mon.check(x.min() - 1 <= m.min() and m.max() <= x.max() + 1, "missing.range", "a learnt state lies outside the samples",
                  means=m, low=x.min(), high=x.max())
        mon.event("models compared")
    mon.state("missing", n, k)


class Kind(object):
    """An appliance as far as training looks at it."""

    def __init__(self, type, instance=1):
        self.identifier = type_id(type, instance)


def type_id(type, instance):
    from collections import namedtuple
    return namedtuple("ApplianceID", ["type", "instance"])(type, instance)


class Sub(object):
    def __init__(self, i, series, kinds):
        self.i, self.series, self.appliances, self.name = i, series, kinds, None

    def power_series(self, **kwargs):
        return iter([self.series.copy()])

    def __repr__(self):
        return "Sub(%d)" % self.i


class Subs(object):
    def __init__(self, meters):
        self.meters = meters

    def submeters(self):
        return self


class Adapter(object):
    """The legacy class seen through the interface `judge` expects."""

    def __init__(self, f):
        self.f, self.individual = f, f.individual

    def disaggregate_chunk(self, tests):
        out = []
        for t in tests:
            out.append(self.f.disaggregate_chunk(t.iloc[:, 0]))
        return out


def w_legacy(mon, rng):
    """The legacy FHMM: prescribed numbers of states, learnt parameters, and the most likely states."""
    n = rng.randrange(1, 4)
    N = 200
    subs, want, given = [], {}, {}
    types = rng.sample(["fridge", "kettle", "light", "television", "computer"], 5)
    for i in range(n):
        k = rng.choice([2, 2, 3])
        level = sorted(rng.sample([0, 60, 150, 400, 900, 2200], k))
        at = np.repeat(rng.np.integers(0, k, N), 5)[:N]
        v = np.array(level)[at] + rng.np.integers(0, 16, N) / 8.0
        ser = pd.Series(v, index=gen.rand_index(rng, N, tz="UTC"), name=("power", "active"))
        kinds = [Kind(types.pop(), rng.randrange(1, 3))]
        if i == 0 and rng.chance(0.5):
            kinds.append(Kind(types.pop()))
        m = Sub(i, ser, kinds)
        subs.append(m)
        how = rng.choice(["meter", "appliance", "type", "both", "none"])
        if how == "meter" and rng.chance(0.5) and len(kinds) == 1:      # the meter's own number wins
            given[kinds[0].identifier.type] = 4
        if how == "meter":
            given[m] = want[m] = rng.choice([2, 3])
        elif how != "none":
            for q, a in enumerate(kinds):
                c = 2 if len(kinds) > 1 else rng.choice([2, 3])
                given[a if how == "appliance" or (how == "both" and q) else a.identifier.type] = c
                want[m] = want.get(m, 0) + c
    if rng.chance(0.2):
        subs.append(Sub(n, pd.Series([], index=pd.DatetimeIndex([], tz="UTC"), dtype=float, name=("power", "active")), [Kind("toaster")]))
    f = legacy.FHMM()
    keys = list(given.items())
    f.train(Subs(subs), num_states_dict=given) if given or rng.chance(0.5) else f.train(Subs(subs))
    mon.check(list(given.items()) == keys, "legacy.arguments")
    names = subs[:n]
    mon.equal([m.i for m in f.individual], [m.i for m in names], "legacy.meters")
    mon.equal([m.i for m in f.meters], [m.i for m in names], "legacy.meters")
    combined = 1
    for m in names:
        h = f.individual[m]
        mu = h.means_.ravel()
        if m in want:
            mon.equal(len(mu), want[m], "legacy.number_of_states", "the number of states asked for", meter=m.i)
        else:
            mon.check(1 <= len(mu) <= 3, "legacy.number_of_states")
        combined *= len(mu)
        mon.check(bool(np.all(np.diff(mu) >= 0)), "legacy.sorted", means=mu)
        mon.close(h.transmat_.sum(axis=1), np.ones(len(mu)), "legacy.stochastic")
        mon.close(h.startprob_.sum(), 1.0, "legacy.stochastic")
        mon.check(m.series.min() - 1 <= mu.min() and mu.max() <= m.series.max() + 1, "legacy.range", means=mu)
        mon.event("legacy models trained")
    mon.equal(len(f.model.startprob_), combined, "legacy.combined")
    if combined <= 40:
        for h in f.individual.values():
            if not (np.isfinite(h.transmat_).all() and np.isfinite(h.means_).all()):
                return
        judge(mon, rng, Adapter(f), names, [mains(rng, names, f.individual, rng.choice([20, 60]))])
    mon.state("legacy", n, len(given), combined)
