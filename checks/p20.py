"""P20: loss functions used to score experiments."""
import math

import numpy as np
import pandas as pd

from checks import gen
from nilmtk import losses

WORKLOADS = [("formula", 700, 9000), ("relations", 500, 6000)]
RULE = ("random ground truth / prediction pairs (zeros, values at and around the on-threshold of 10 W, all-off, all-on, "
        "large, fractional, one sample) as Series, arrays and one-column frames; each loss is compared with a scalar "
        "re-computation in exact summation and with metamorphic relations; distinct = (loss, kind of data, container, length class)")
ASSUMPTIONS = ["equal lengths and equal indexes", "no missing values", "relative tolerance 1e-9"]
TECHNIQUE = "differential + metamorphic monitor on the loss functions' return values"
NOTE = "Held on the executions observed; every loss is recomputed from its definition."


def pair(rng, kinds=()):
    n = rng.choice([1, 2, 3, 10, 50, 300])
    kind = rng.choice(["mixed", "mixed", "sparse", "threshold", "alloff", "allon", "tiny", "huge", "int"] + list(kinds))
    def one():
        if kind == "sparse":
            v = np.where(rng.np.random(n) < 0.8, 0.0, rng.np.integers(0, 3000, n).astype(float))
        elif kind == "threshold":
            v = rng.np.choice([0, 9, 9.999999, 10, 10.000001, 11, 500.0], n)
        elif kind == "alloff":
            v = rng.np.random(n) * 9
        elif kind == "allon":
            v = 10 + rng.np.random(n) * 100
        elif kind == "tiny":
            v = rng.np.random(n) * 1e-3
        elif kind == "huge":
            v = rng.np.random(n) * 1e7
        elif kind == "signed":      # power flowing back
            v = rng.np.integers(-8000, 24000, n) / 8.0 + 0.0625
        elif kind == "int":
            v = rng.np.integers(0, 4000, n)
        else:
            v = rng.np.integers(0, 24000, n) / 8.0
        return v
    return kind, one(), one()


def wrap(rng, v, how, idx):
    if how == "series":
        return pd.Series(v, index=idx, name="power")
    return np.array(v)


def ref(g, p):
    g, p = [float(x) for x in g], [float(x) for x in p]
    n = len(g)
    out = {}
    out["mae"] = math.fsum(abs(a - b) for a, b in zip(g, p)) / n
    out["rmse"] = math.sqrt(math.fsum((a - b) ** 2 for a, b in zip(g, p)) / n)
    out["relative_error"] = math.fsum(abs(a - b) / (1 + b) for a, b in zip(g, p)) / n
    den = math.fsum(a * a for a in g)
    out["nde"] = math.sqrt(math.fsum((a - b) ** 2 for a, b in zip(g, p)) / den) if den else None
    den = math.fsum(g)
    out["nep"] = math.fsum(abs(a - b) for a, b in zip(g, p)) / den if den else None
    tp = sum(a >= 10 and b >= 10 for a, b in zip(g, p))
    fp = sum(a < 10 and b >= 10 for a, b in zip(g, p))
    fn = sum(a >= 10 and b < 10 for a, b in zip(g, p))
    out["f1score"] = 2.0 * tp / (2 * tp + fp + fn) if tp + fp + fn else 0.0
    m = math.fsum(g) / n
    ss = math.fsum((a - m) ** 2 for a in g)
    out["r2score"] = 1 - math.fsum((a - b) ** 2 for a, b in zip(g, p)) / ss if ss > 1e-12 and n > 1 else None
    return out


NAMES = ["mae", "rmse", "relative_error", "nde", "nep", "f1score", "r2score"]


def w_formula(mon, rng):
    kind, g, p = pair(rng, ["signed"])
    how = rng.choice(["series", "series", "array"])
    idx = gen.rand_index(rng, len(g), tz=rng.choice([None, "UTC"]))
    G, P = wrap(rng, g, how, idx), wrap(rng, p, how, idx)
    want = ref(g, p)
    mon.note(kind, how, len(g))
    for name in NAMES:
        if want[name] is None:
            continue
        got = getattr(losses, name)(G, P)
        mon.check(np.ndim(got) == 0, "shape." + name, got=got)
        mon.close(float(got), want[name], "value." + name, rtol=1e-8, atol=1e-9, n=len(g), kind=kind,
                  truth=list(g[:8]), prediction=list(p[:8]))
        mon.state(name, kind, how, min(len(g), 4))
    mon.check(np.array_equal(np.asarray(G), g) and np.array_equal(np.asarray(P), p), "arguments_unchanged")


def w_relations(mon, rng):
    kind, g, p = pair(rng)
    idx = gen.rand_index(rng, len(g))
    how = rng.choice(["series", "array"])
    G, P = wrap(rng, g, how, idx), wrap(rng, p, how, idx)
    perm = rng.np.permutation(len(g))
    G2, P2 = wrap(rng, g[perm], how, idx), wrap(rng, p[perm], how, idx)
    want = ref(g, p)
    for name in NAMES:
        if want[name] is None:
            continue
        f = getattr(losses, name)
        a = float(f(G, P))
        mon.close(a, float(f(G2, P2)), "order." + name, "depends on the order of the samples", rtol=1e-8)
        perfect = float(f(G, wrap(rng, g.copy(), how, idx)))
        if name == "f1score":
            mon.check(0 <= a <= 1, "range.f1score", value=a)
            mon.close(perfect, 1.0 if (g >= 10).any() else 0.0, "perfect.f1score")
        elif name == "r2score":
            mon.close(perfect, 1.0, "perfect.r2score")
            mon.check(a <= 1 + 1e-12, "range.r2score", value=a)
        else:
            mon.check(a >= 0, "range." + name, value=a)
            mon.close(perfect, 0.0, "perfect." + name)
            if not np.array_equal(g, p):
                mon.check(a > 0, "imperfect." + name, "a wrong prediction scores as perfect", value=a)
        if name in ("nde", "nep"):
            mon.close(float(f(wrap(rng, g * 2.0, how, idx), wrap(rng, p * 2.0, how, idx))), a, "scale." + name, rtol=1e-8)
        if name in ("mae", "rmse"):
            mon.close(float(f(P, G)), a, "symmetry." + name, rtol=1e-8)
            mon.close(float(f(wrap(rng, g * 2.0, how, idx), wrap(rng, p * 2.0, how, idx))), 2 * a, "scale." + name, rtol=1e-8)
    mon.check(float(losses.rmse(G, P)) >= float(losses.mae(G, P)) - 1e-6 * (1 + abs(float(losses.mae(G, P)))), "rmse_ge_mae")
    mon.state("relations", kind, how, min(len(g), 4))
