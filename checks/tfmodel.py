"""Reference model of TimeFrames: sets of integer instants (nanoseconds)."""
import pandas as pd

from nilmtk.timeframe import TimeFrame

UNITS = [1, 1000, 10 ** 6, 10 ** 9, 7 * 10 ** 9, 60 * 10 ** 9, 3600 * 10 ** 9,
         86400 * 10 ** 9, 30 * 86400 * 10 ** 9]
ORIGINS = ["2013-06-07", "1970-01-01", "1999-12-31 23:59:30", "2013-10-27 00:10",
           "2014-03-30 00:30", "2000-02-28 22:00", "2038-01-19 03:14:07",
           "2014-11-02 04:30", "1965-05-05"]
ZONES = [None, "UTC", "Europe/London", "America/New_York", "Asia/Kolkata", "Australia/Sydney"]


class Axis(object):
    """A grid of instants: origin + k*unit; knows how to make Timestamps."""

    def __init__(self, rng, n=14, zones=None):
        self.unit = rng.choice(UNITS)
        self.origin = pd.Timestamp(rng.choice(ORIGINS)).value
        self.n = n
        self.aware = rng.chance(0.7)
        zs = [z for z in ZONES if z] if self.aware else [None]
        if zones is not None:
            zs = zones
        self.zones = zs

    def ns(self, k):
        return self.origin + int(k * self.unit)

    def ts(self, k, zone=None):
        t = pd.Timestamp(self.ns(k))
        if self.aware:
            t = t.tz_localize("UTC")
            if zone:
                t = t.tz_convert(zone)
        return t

    def probes(self):
        """All grid instants and, where they exist, instants just around them."""
        out = set()
        for k in range(-2, self.n + 3):
            v = self.ns(k)
            out.add(v)
            if self.unit > 2:
                out.add(v - 1)
                out.add(v + 1)
                out.add(v + self.unit // 2)
        return sorted(out)

    def series(self, zone=None):
        idx = pd.DatetimeIndex(pd.to_datetime(self.probes(), unit="ns"))
        if self.aware:
            idx = idx.tz_localize("UTC")
            if zone:
                idx = idx.tz_convert(zone)
        return pd.Series(range(len(idx)), index=idx, dtype=float)


class M(object):
    """lo/hi in ns or None; inc: end included; empty."""

    def __init__(self, lo, hi, inc=False, empty=False):
        self.lo, self.hi, self.inc, self.empty = lo, hi, inc, empty

    def has(self, v):
        if self.empty:
            return False
        if self.lo is not None and v < self.lo:
            return False
        if self.hi is not None:
            if v > self.hi or (v == self.hi and not self.inc):
                return False
        return True

    def key(self):
        return (self.lo, self.hi, self.empty)

    def __repr__(self):
        if self.empty:
            return "M(empty)"
        return "M[%s, %s%s" % (self.lo, self.hi, "]" if self.inc else ")")


def val(ts):
    return None if ts is None else pd.Timestamp(ts).value


def model_of(tf):
    """Read a TimeFrame back through its public attributes."""
    return M(val(tf.start), val(tf.end), bool(tf.include_end), bool(tf.empty))


def rand_frame(rng, ax, p_open=0.2, p_empty=0.1, p_disabled=0.06, bounded=False):
    """(TimeFrame, M): random frame and what it denotes."""
    if not bounded and rng.chance(p_empty):
        z = rng.choice(ax.zones)
        a = TimeFrame(ax.ts(0, z), ax.ts(1, z)).intersection(TimeFrame(ax.ts(2, z), ax.ts(3, z)))
        return a, M(None, None, bool(a.include_end), True)
    i, j = sorted(rng.sample(range(ax.n), 2))
    lo, hi = i, j
    if not bounded and rng.chance(p_open):
        lo = None
    if not bounded and rng.chance(p_open):
        hi = None
    z = rng.choice(ax.zones)
    z2 = rng.choice(ax.zones)
    form = rng.randrange(3)
    s = None if lo is None else ax.ts(lo, z)
    e = None if hi is None else ax.ts(hi, z2)
    if form == 0 and s is not None:
        s = s.isoformat()
    if form == 1 and s is None:
        s = pd.NaT
    if form == 2 and e is None:
        e = pd.NaT
    if rng.chance(0.2):
        tf = TimeFrame()
        tf.start, tf.end = s, e
    else:
        tf = TimeFrame(s, e)
    inc = rng.chance(0.4)
    tf.include_end = inc
    m = M(None if lo is None else ax.ns(lo), None if hi is None else ax.ns(hi), inc)
    if not bounded and rng.chance(p_disabled):
        tf.enabled = False
        m = M(None, None, inc)
    return tf, m


def isect(a, b):
    """Reference intersection -> (M, set of acceptable include_end flags)."""
    if a.empty or b.empty:
        return M(None, None, False, True), {True, False}
    los = [x.lo for x in (a, b) if x.lo is not None]
    his = [x.hi for x in (a, b) if x.hi is not None]
    lo = max(los) if los else None
    hi = min(his) if his else None
    if lo is not None and hi is not None and lo >= hi:
        return M(None, None, False, True), {True, False}
    if hi is None:
        return M(lo, hi), {True, False}
    flags = {x.inc for x in (a, b) if x.hi == hi}
    return M(lo, hi, min(flags)), {min(flags)}
