"""P02: splitting, merging and grouping TimeFrames conserves covered time."""
from datetime import timedelta

import numpy as np
import pandas as pd

from checks.tfmodel import Axis, M, isect, model_of, rand_frame, val
from nilmtk.timeframe import TimeFrame, merge_timeframes, split_timeframes
from nilmtk.timeframegroup import TimeFrameGroup

WORKLOADS = [("split", 1500, 15000), ("merge", 3000, 30000), ("group", 2500, 25000),
             ("periods", 200, 2000)]
RULE = ("random sorted lists of TimeFrames (disjoint, touching, gapped, nested) on an instant grid with unit "
        "1 ns .. 30 d; split thresholds and merge gaps around the exact boundaries; distinct = (number of "
        "pieces, boundary relation, merge pattern) judged")
ASSUMPTIONS = ["frames passed to split/merge/group are bounded and non-empty, as documented"]
TECHNIQUE = "conservation monitor: covered instants and total duration before vs after"
NOTE = "Held on the executions observed; pieces are compared with an exact integer-nanosecond model."


def w_split(mon, rng):
    ax = Axis(rng, n=40)
    tf, m = rand_frame(rng, ax, bounded=True)
    length = m.hi - m.lo
    us = 1000
    kind = rng.randrange(4)
    if kind == 0:      # divides exactly when possible
        thr_ns = max(us, length // rng.randrange(1, 12))
    elif kind == 1:
        thr_ns = max(us, int(length * rng.uniform(0.05, 1.5)))
    elif kind == 2:
        thr_ns = max(us, length + rng.choice([-us, 0, us]))
    else:
        thr_ns = max(us, ax.unit * rng.randrange(1, 20))
    if length / thr_ns > 300:
        thr_ns = length // 50 + us
    thr_ns = thr_ns // us * us
    thr = thr_ns / 1e9
    if thr_ns % 10 ** 9 == 0 and rng.chance(0.5):
        thr = int(thr)
    # what a threshold in (float) seconds denotes, to the microsecond
    eff = pd.Timedelta(timedelta(seconds=thr)).value
    before = model_of(tf)
    pieces = list(tf.split(thr))
    mon.note(tf, thr, pieces)
    mon.state(min(len(pieces), 12), length % eff == 0, length < eff, m.inc, kind)
    mon.check(len(pieces) >= 1, "split.some")
    mon.equal(val(pieces[0].start), m.lo, "split.first", "", tf=tf, thr=thr)
    mon.equal(val(pieces[-1].end), m.hi, "split.last", "", tf=tf, thr=thr)
    mon.equal(bool(pieces[-1].include_end), m.inc, "split.include_end")
    for p, q in zip(pieces, pieces[1:]):
        mon.equal(val(p.end), val(q.start), "split.adjacent", "", p=p, q=q)
        mon.check(not p.include_end, "split.inner_end", "an inner piece includes the first instant of the next")
    total = 0
    for p in pieces:
        d = p.end.value - p.start.value
        total += d
        mon.check(0 < d <= eff, "split.no_longer", "", piece=p, threshold=thr)
    mon.equal(total, length, "split.conserves")
    mon.equal(len(pieces), 1 if length <= eff else -(-length // eff), "split.count", "", tf=tf, thr=thr)
    mon.equal(repr(model_of(tf)), repr(before), "split.pure")
    # split a list
    others = [rand_frame(rng, ax, bounded=True)[0] for _ in range(rng.randrange(3))]
    tfs = [tf] + others
    thr2 = max(thr, max(t.timedelta.total_seconds() for t in tfs) / 40)
    got = list(split_timeframes(tfs, thr2))
    want = [q for t in tfs for q in t.split(thr2)]
    mon.check(len(got) == len(want) and all(a == b for a, b in zip(got, want)), "split.list")
    for bad in (TimeFrame(), TimeFrame(start=tf.start), TimeFrame(end=tf.end)):
        mon.raises(ValueError, lambda: list(bad.split(5)), "split.open")


def disjoint(rng, ax, n):
    """Sorted, non-overlapping (possibly touching) model frames."""
    pts = sorted(rng.choice(range(ax.n)) for _ in range(2 * n))
    out = []
    for a, b in zip(pts[::2], pts[1::2]):
        if a < b:
            out.append(M(ax.ns(a), ax.ns(b)))
    return out


def build(rng, ax, m):
    t = lambda v: ax.ts((v - ax.origin) // ax.unit, rng.choice(ax.zones))
    tf = TimeFrame(t(m.lo), t(m.hi))
    tf.include_end = m.inc
    return tf


def w_merge(mon, rng):
    ax = Axis(rng, n=rng.choice([8, 20, 40]))
    if rng.chance(0.75):
        ms = disjoint(rng, ax, rng.randrange(0, 8))
    else:                       # sorted by start, may overlap
        ms = []
        for _ in range(rng.randrange(0, 7)):
            i, j = sorted(rng.sample(range(ax.n), 2))
            ms.append(M(ax.ns(i), ax.ns(j)))
        ms.sort(key=lambda m: (m.lo, m.hi))
    for m in ms:
        m.inc = rng.chance(0.25)
    tfs = [build(rng, ax, m) for m in ms]
    gap = 0 if rng.chance(0.4) else rng.randrange(0, 4) * ax.unit / 1e9
    g = pd.Timedelta(timedelta(seconds=gap)).value
    before = [model_of(t) for t in tfs]
    arg = list(tfs)
    got = merge_timeframes(arg, gap=gap) if gap or rng.chance(0.5) else merge_timeframes(arg)
    mon.note(tfs, gap, got)
    want = []
    for m in ms:
        if want:
            p = want[-1]
            if 0 <= m.lo - p.hi <= g or 0 <= p.lo - m.hi <= g:
                hi = max(p.hi, m.hi)
                p.inc = any(x.inc for x in (p, m) if x.hi == hi)
                p.lo, p.hi = min(p.lo, m.lo), hi
                continue
        want.append(M(m.lo, m.hi, m.inc))
    mon.state(len(ms), len(want), g > 0, ax.aware)
    mon.equal([repr(model_of(t)) for t in got], [repr(m) for m in want], "merge", "",
              frames=tfs, gap=gap)
    mon.equal([repr(model_of(t)) for t in tfs], [repr(m) for m in before], "merge.pure")
    # nothing that was covered is lost
    for v in ax.probes():
        if any(m.has(v) for m in ms):
            mon.check(any(model_of(t).has(v) for t in got), "merge.covers", "", instant=v)
        elif g == 0:
            mon.check(not any(model_of(t).has(v) for t in got), "merge.no_more", "", instant=v)
    if g == 0 and got and gap == 0:
        again = merge_timeframes(list(got))
        mon.check(len(again) == len(got), "merge.idempotent") if all(
            a.end < b.start for a, b in zip(got, got[1:])) else None


def w_group(mon, rng):
    ax = Axis(rng, n=rng.choice([8, 20, 40]))
    A = disjoint(rng, ax, rng.randrange(0, 8))
    B = disjoint(rng, ax, rng.randrange(0, 8))
    loose = rng.chance(0.3)
    if loose:                               # groups need not be sorted or disjoint
        A, B = A + disjoint(rng, ax, rng.randrange(0, 3)), B + disjoint(rng, ax, rng.randrange(0, 3))
        rng.shuffle(A)
        rng.shuffle(B)
    for m in A + B:
        m.inc = rng.chance(0.3)
    ta, tb = [build(rng, ax, m) for m in A], [build(rng, ax, m) for m in B]
    for t, m in zip(ta + tb, A + B):
        t.include_end = m.inc
    ga = TimeFrameGroup(ta)
    gb = TimeFrameGroup(tb) if rng.chance(0.7) else list(tb)
    got = ga.intersection(gb)
    mon.note(ta, tb, got)
    mon.check(isinstance(got, TimeFrameGroup), "group.type")
    mon.check(not any(t.empty for t in got), "group.no_empty")
    want = []
    for x in A:
        for y in B:
            i, _ = isect(x, y)
            if not i.empty:
                want.append((i.lo, i.hi))
    mon.state(len(A), len(B), len(want))
    mon.equal([(val(t.start), val(t.end)) for t in got], want, "group.intersection", "", a=ta, b=tb)
    mon.equal(len(ga), len(ta), "group.pure")
    mon.equal(len(gb), len(tb), "group.pure")
    # inclusive ends are kept
    for t in got:
        flags = {m.inc for m in A + B if m.hi == val(t.end)}
        mon.check(bool(t.include_end) in flags, "group.include_end", "", frame=t)
    # uptime
    mon.equal(pd.Timedelta(ga.uptime()).value, sum(m.hi - m.lo for m in A), "group.uptime")
    mon.equal(pd.Timedelta(got.uptime()).value, sum(h - l for l, h in want), "group.uptime")
    mon.check(loose or pd.Timedelta(got.uptime()) <= pd.Timedelta(ga.uptime()), "group.no_gain")
    # remove_shorter_than
    if A:
        lens = [m.hi - m.lo for m in A]
        thr = rng.choice(lens) / 1e9 if rng.chance(0.6) else rng.uniform(0, max(lens) / 1e9)
        if rng.chance(0.15):
            thr = rng.choice([0, 0, -1, min(lens) / 2e9])
        out = ga.remove_shorter_than(thr)
        mon.check(isinstance(out, TimeFrameGroup), "group.type")
        keep = [t for t, m in zip(ta, A)
                if pd.Timedelta(m.hi - m.lo, "ns").total_seconds() >= thr]
        mon.check(len(out) == len(keep) and all(x == y for x, y in zip(out, keep)),
                  "group.remove_shorter", "", got=list(out), want=keep, thr=thr)
        mon.equal(len(ga), len(ta), "group.pure")
        mon.equal([bool(x.include_end) for x in out], [bool(x.include_end) for x in keep], "group.remove_flags")
    mon.equal(len(TimeFrameGroup()), 0, "group.empty")
    # empty frames are members like any other: they cover nothing
    hollow = TimeFrame(ax.ts(0), ax.ts(1)).intersection(TimeFrame(ax.ts(1), ax.ts(2)))
    at = rng.randrange(len(ta) + 1)
    mixed = ta[:at] + [hollow] + ta[at:]
    gm = TimeFrameGroup(mixed)
    mon.check(len(gm) == len(mixed) and all(x is y for x, y in zip(gm, mixed)), "group.members")
    mon.equal(pd.Timedelta(gm.uptime()), pd.Timedelta(ga.uptime()), "group.uptime")
    mon.equal([(val(t.start), val(t.end)) for t in gm.intersection(gb)], want, "group.intersection", "", a=mixed, b=tb)


def w_periods(mon, rng):
    freq = rng.choice(["D", "h", "min", "W", "M"])
    n = rng.randrange(1, 20)
    idx = pd.period_range(rng.choice(["2013-01-01", "2012-02-27", "2014-03-29"]), periods=n, freq=freq)
    keep = rng.sample(range(n), rng.randrange(1, n + 1))
    if rng.chance(0.6):
        keep.sort()
    if rng.chance(0.2):
        keep += rng.sample(keep, 1)
    idx = idx[keep]                         # periods need not be sorted or distinct
    g = TimeFrameGroup(idx)
    mon.state(freq, len(idx))
    mon.equal(len(g), len(idx), "periods.len")
    for t, p in zip(g, idx):
        mon.equal(t.start, p.start_time, "periods.start")
        mon.equal(t.end, p.end_time, "periods.end")
    want = sum(((p.end_time - p.start_time) for p in idx), pd.Timedelta(0))
    mon.equal(pd.Timedelta(g.uptime()), want, "periods.uptime")
