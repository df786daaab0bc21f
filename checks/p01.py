"""P01: a TimeFrame behaves as the set of instants it denotes."""
from datetime import timedelta

import pandas as pd

from checks.tfmodel import Axis, M, isect, model_of, rand_frame, val
from nilmtk.timeframe import (TimeFrame, list_of_timeframe_dicts,
                              list_of_timeframes_from_list_of_dicts, timeframe_from_dict)

WORKLOADS = [("pair", 6000, 60000), ("order", 800, 8000), ("construct", 1500, 15000),
             ("slice", 1200, 12000)]
RULE = ("random pairs/lists of TimeFrames on a 14-point instant grid whose unit (1 ns .. 30 d), origin "
        "(epoch, leap day, DST changes) and time zones vary per case, incl. open, empty, disabled and "
        "end-inclusive frames; distinct = (relation of the end points, openness, flags, emptiness) judged")
ASSUMPTIONS = ["equal frames hash alike except in the repeated hour of a DST change (pandas Timestamp hash)",
               "both operands are tz-aware or both naive",
               "when both operands end at the same instant either operand's end-inclusion is accepted"]
TECHNIQUE = "online reference-model monitor (sets of instants) over random TimeFrame operations"
NOTE = ("Held on the executions observed: every operation result is compared, through the public "
        "attributes and by slicing probe series, with an integer interval model.")


def rel(a, b):
    def c(x, y):
        if x is None or y is None:
            return (x is None, y is None)
        return (x > y) - (x < y)
    return (c(a.lo, b.lo), c(a.hi, b.hi), c(a.lo, b.hi), c(a.hi, b.lo), a.inc, b.inc, a.empty, b.empty)


def same(mon, tf, m, what, flags=None):
    mon.equal(bool(tf.empty), m.empty, what + ".empty", "", frame=tf, model=m)
    if m.empty:
        mon.check(not tf, what + ".falsy", "an empty frame is truthy")
        mon.equal(pd.Timedelta(tf.timedelta), pd.Timedelta(0), what + ".timedelta")
        return
    mon.equal(val(tf.start), m.lo, what + ".start", "", frame=tf, model=m)
    mon.equal(val(tf.end), m.hi, what + ".end", "", frame=tf, model=m)
    if m.hi is not None:
        mon.check(bool(tf.include_end) in (flags or {m.inc}), what + ".include_end", "",
                  got=tf.include_end, want=flags or {m.inc})
    mon.equal(bool(tf), m.lo is not None or m.hi is not None, what + ".bool")
    if m.lo is not None and m.hi is not None:
        mon.equal(pd.Timedelta(tf.timedelta).value, m.hi - m.lo, what + ".timedelta")
    else:
        mon.check(tf.timedelta is None, what + ".timedelta", "open frame has a duration")


def hash_comparable(*tfs):
    """pandas hashes equal Timestamps differently in the repeated hour of a DST
    change when their zones differ (fold=1): not nilmtk's doing, not judged."""
    return not any(t is not None and getattr(t, "fold", 0) for tf in tfs for t in (tf.start, tf.end))


def snapshot(tf):
    return (tf.start, tf.end, tf.empty, tf.include_end, tf.enabled)


def w_pair(mon, rng):
    ax = Axis(rng)
    a, ma = rand_frame(rng, ax)
    b, mb = rand_frame(rng, ax)
    mon.note("a", a, ma, "b", b, mb)
    mon.state(rel(ma, mb), a.enabled, b.enabled)
    sa, sb = snapshot(a), snapshot(b)
    same(mon, a, ma, "frame")
    for x, y, mx, my in ((a, b, ma, mb), (b, a, mb, ma)):
        got = x.intersection(y)
        want, flags = isect(mx, my)
        same(mon, got, want, "intersection", flags)
        mon.check(got is not x and got is not y, "intersection.new", "operand returned")
        if not got.empty:
            again = got.intersection(y)
            mon.check(again == got, "intersection.idempotent", "", got=again, want=got)
        got.include_end = not got.include_end
        got.enabled = False
        # hull
        u = x.union(y)
        if mx.empty:
            hull = my
        elif my.empty:
            hull = mx
        else:
            hull = M(None if None in (mx.lo, my.lo) else min(mx.lo, my.lo),
                     None if None in (mx.hi, my.hi) else max(mx.hi, my.hi))
        mon.equal(bool(u.empty), hull.empty, "union.empty")
        if not hull.empty:
            mon.equal((val(u.start), val(u.end)), (hull.lo, hull.hi), "union.hull", "", x=x, y=y)
            if hull.hi is not None:
                mon.equal(bool(u.include_end), any(m.inc for m in (mx, my) if not m.empty and m.hi == hull.hi),
                          "union.include_end", "", x=x, y=y)
        # overlap
        if want.empty:
            x.check_for_overlap(y)
            mon.event("judged:overlap.none")
        else:
            mon.raises(ValueError, lambda: x.check_for_overlap(y), "overlap.raises")
        # equality and hashing
        mon.equal(x == y, mx.key() == my.key(), "eq", "", x=x, y=y)
        mon.equal(x != y, mx.key() != my.key(), "ne", "", x=x, y=y)
        if mx.key() == my.key() and hash_comparable(x, y):
            mon.equal(hash(x), hash(y), "hash", "", x=x, y=y)
        # adjacency
        if mx.empty or my.empty:
            mon.equal(bool(x.adjacent(y)), False, "adjacent.empty")
        elif None not in (mx.lo, mx.hi, my.lo, my.hi):
            for gap in (0, rng.choice([0, 1, 2, 3]) * max(1, ax.unit) / 1e9, 1e-6 * rng.randrange(5)):
                g = pd.Timedelta(timedelta(seconds=gap)).value
                d1, d2 = my.lo - mx.hi, mx.lo - my.hi
                mon.equal(bool(x.adjacent(y, gap)), 0 <= d1 <= g or 0 <= d2 <= g, "adjacent", "",
                          x=x, y=y, gap=gap)
    none = a.intersection(None)
    mon.check(none == a and none is not a, "intersection.none", "", got=none, want=a)
    mon.equal((snapshot(a), snapshot(b)), (sa, sb), "operands.unchanged")
    mon.sample(dict(a=repr(a), b=repr(b), intersection=repr(a.intersection(b))))
    # three-way: associativity as sets of instants, judged on probe instants
    c, mc = rand_frame(rng, ax)
    s = ax.series(rng.choice(ax.zones))
    got = a.intersection(b).intersection(c)
    m2, _ = isect(isect(ma, mb)[0], mc)
    mon.equal((bool(got.empty), val(got.start), val(got.end)), (m2.empty, m2.lo, m2.hi), "intersection.three")
    m3 = isect(ma, mb)[0]
    ab = a.intersection(b)
    m3.inc = bool(ab.include_end)
    got = ab.slice(s)
    want = [i for i, v in enumerate(ax.probes()) if m3.has(v)]
    mon.equal([int(v) for v in got.values], want, "intersection.members")


def w_order(mon, rng):
    ax = Axis(rng, n=rng.choice([4, 14]))
    frames = [rand_frame(rng, ax, p_empty=0, p_open=0.25) for _ in range(rng.randrange(2, 9))]
    tfs = [f for f, _ in frames]
    models = {id(f): m for f, m in frames}
    key = lambda m: (0, 0) if m.lo is None else (1, m.lo)
    mon.state(tuple(key(m)[0] for _, m in frames), len(frames))
    out = sorted(tfs)
    mon.equal([key(models[id(f)]) for f in out], sorted(key(m) for _, m in frames), "sorted")
    for x in tfs:
        for y in tfs:
            mx, my = models[id(x)], models[id(y)]
            mon.equal(x < y, key(mx) < key(my), "lt", "", x=x, y=y)
            mon.check(not (x < y and y < x), "lt.asymmetric")
            mon.equal(x > y, key(mx) > key(my) if mx.key() != my.key() else False, "gt", "", x=x, y=y) \
                if key(mx) != key(my) else mon.event("tie")
    distinct = set(tfs)
    if hash_comparable(*tfs):
        mon.equal(len(distinct), len(set(m.key() for m in models.values())), "set.dedup")


def w_construct(mon, rng):
    ax = Axis(rng)
    i, j = rng.randrange(ax.n), rng.randrange(ax.n)
    z = rng.choice(ax.zones)
    s, e = ax.ts(i, z), ax.ts(j, z)
    mon.state(i < j, i == j, z, ax.unit)
    if i >= j:
        mon.raises(ValueError, lambda: TimeFrame(s, e), "order.enforced")
        tf = TimeFrame(start=s)
        mon.raises(ValueError, lambda: setattr(tf, "end", e), "order.enforced.end")
        mon.equal((val(tf.start), tf.end), (ax.ns(i), None), "failed.set.leaves")
        tf = TimeFrame(end=e)
        mon.raises(ValueError, lambda: setattr(tf, "start", s), "order.enforced.start")
        mon.equal((tf.start, val(tf.end)), (None, ax.ns(j)), "failed.set.leaves")
        return
    tf = TimeFrame(s, e)
    mon.equal((val(tf.start), val(tf.end), bool(tf.empty), bool(tf.include_end), tf.enabled),
              (ax.ns(i), ax.ns(j), False, False, True), "construct")
    # copy constructor: equal and independent
    tf.include_end = rng.chance(0.5)
    tf.enabled = rng.chance(0.8)
    cp = TimeFrame(tf)
    mon.equal(snapshot(cp), snapshot(tf), "copy")
    was = snapshot(tf)
    cp.enabled = True
    cp.end = None
    cp.include_end = not cp.include_end
    mon.equal(snapshot(tf), was, "copy.independent")
    tf.enabled = True
    # naive + tz
    if ax.aware and rng.chance(0.5):
        zone = rng.choice(ax.zones)
        n1, n2 = s.tz_localize(None), e.tz_localize(None)
        if n1 < n2:
            try:
                w1, w2 = n1.tz_localize(zone), n2.tz_localize(zone)
            except Exception:
                w1 = w2 = None
            if w1 is not None and w1 < w2:
                t = TimeFrame(n1, n2, tz=zone)
                mon.equal((val(t.start), val(t.end)), (w1.value, w2.value), "tz.localize")
                mon.equal(str(t.start.tz), str(w1.tz), "tz.zone")
                t = TimeFrame(start=n1, tz=zone)
                mon.equal((val(t.start), t.end), (w1.value, None), "tz.localize")
                t = TimeFrame(end=n2, tz=zone)
                mon.equal((t.start, val(t.end)), (None, w2.value), "tz.localize")
                mon.event("half-open frames localized")
    # dictionaries
    forms = [tf, TimeFrame(start=s), TimeFrame(end=e), TimeFrame()]
    for f in forms:
        d = f.to_dict()
        mon.equal(set(d), {k for k, v in (("start", f.start), ("end", f.end)) if v is not None}, "dict.keys")
        for back in (TimeFrame.from_dict(d), timeframe_from_dict(d)):
            mon.check(back == f, "dict.roundtrip", "", got=back, want=f, d=d)
            mon.equal((val(back.start), val(back.end)), (val(f.start), val(f.end)), "dict.roundtrip")
        for v in d.values():
            mon.check(isinstance(v, str), "dict.plain")
    back = list_of_timeframes_from_list_of_dicts(list_of_timeframe_dicts(forms))
    mon.check(len(back) == len(forms) and all(x == y for x, y in zip(back, forms)), "dict.list")
    # clear
    cl = TimeFrame(tf)
    cl.clear()
    mon.equal((cl.start, cl.end, cl.empty, bool(cl)), (None, None, False, False), "clear")
    # moving the ends
    for first in ("start", "end"):
        mv = TimeFrame(tf)
        k = rng.randrange(ax.n)
        new = ax.ts(k, rng.choice(ax.zones))
        ok = k < j if first == "start" else k > i
        mv.enabled = rng.chance(0.7)
        if ok:
            setattr(mv, first, new)
            mv.enabled = True
            mon.equal((val(mv.start), val(mv.end)), (ax.ns(k), ax.ns(j)) if first == "start" else (ax.ns(i), ax.ns(k)), "move." + first)
            setattr(mv, first, rng.choice([None, pd.NaT]))
            mon.check(getattr(mv, first) is None and not mv.empty, "move.open")
        else:
            mon.raises(ValueError, lambda: setattr(mv, first, new), "order.enforced.move")
            mv.enabled = True
            mon.equal((val(mv.start), val(mv.end)), (ax.ns(i), ax.ns(j)), "failed.set.leaves")
    # disabled
    tf.enabled = False
    mon.equal((tf.start, tf.end), (None, None), "disabled")
    tf.enabled = True
    mon.equal((val(tf.start), val(tf.end)), (ax.ns(i), ax.ns(j)), "reenabled")


def w_slice(mon, rng):
    ax = Axis(rng)
    tf, m = rand_frame(rng, ax)
    s = ax.series(rng.choice(ax.zones))
    frame = s.to_frame("x")
    if rng.chance(0.3):
        keep = sorted(rng.sample(range(len(s)), rng.randrange(len(s))))
        s, frame = s.iloc[keep], frame.iloc[keep]
    mon.state(m.lo is None, m.hi is None, m.inc, m.empty, len(s) == 0)
    probes = ax.probes()
    for obj in (s, frame):
        before = obj.copy()
        got = tf.slice(obj)
        vals = obj["x"] if obj is frame else obj
        want = [v for v in vals.values if m.has(probes[int(v)])]
        gv = got["x"] if obj is frame else got
        mon.equal(list(gv.values), want, "slice.members", "", frame=tf)
        mon.check(obj.equals(before), "slice.pure")
        mon.check(got.timeframe == tf, "slice.timeframe")
        # the slice is an object of its own: changing it leaves the caller's data alone
        mon.check(got is not obj and getattr(obj, "timeframe", None) is None, "slice.own_object")
        if len(got):
            got.iloc[0] = -1
            mon.check(obj.equals(before), "slice.own_values")
    # the query terms describe the same set
    if not tf.empty:
        terms = tf.query_terms("tf")
        if m.lo is None and m.hi is None:
            mon.check(terms is None, "query.open", "", got=terms)
        else:
            if isinstance(terms, str):
                terms = [terms]
            ok = pd.Series(True, index=s.index)
            for t in terms:
                ok &= pd.Series(eval(t, {}, {"index": s.index, "tf": tf}), index=s.index)
            mon.equal(list(s[ok.values].values), [v for v in s.values if m.has(probes[int(v)])], "query.members")
    else:
        mon.raises(Exception, lambda: tf.query_terms("tf"), "query.empty")
