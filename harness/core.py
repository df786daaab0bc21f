"""Monitor, verdicts and the case runner shared by all checks."""
import contextlib
import hashlib
import importlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback
import zlib

import numpy as np

MAX_VIOLATIONS_PER_WORKER = 5
CASE_TIMEOUT_S = 300


class Violation(Exception):
    """An observed execution broke the property."""

    def __init__(self, mechanism, message, detail=None):
        Exception.__init__(self, "%s: %s" % (mechanism, message))
        self.mechanism = mechanism
        self.message = message
        self.detail = detail or {}


class CaseTimeout(Exception):
    pass


class Monitor(object):
    """Collects what the oracles actually observed in one worker."""

    def __init__(self):
        self.events = {}
        self.signatures = set()
        self.samples = []
        self._trace = []

    # --- observation -----------------------------------------------------
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def state(self, *sig):
        """Record a distinct, non-trivial situation that was judged."""
        h = hashlib.blake2b(repr(sig).encode(), digest_size=8).hexdigest()
        self.signatures.add(h)

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def note(self, *what):
        """Append to the trace of the present case (shown in the replay)."""
        if len(self._trace) < 400:
            self._trace.append(" ".join(str(w) for w in what)[:2000])

    def begin_case(self):
        self._trace = []

    # --- judging ---------------------------------------------------------
    def check(self, ok, mechanism, message="", **detail):
        """One oracle decision.  Raises Violation if it does not hold."""
        self.event("judged:" + mechanism)
        if not ok:
            raise Violation(mechanism, message,
                            {k: repr(v)[:1500] for k, v in detail.items()})

    def equal(self, got, want, mechanism, message="", **detail):
        self.check(got == want, mechanism, message, got=got, want=want, **detail)

    def close(self, got, want, mechanism, message="", rtol=1e-6, atol=1e-9, **detail):
        try:
            ok = bool(np.allclose(np.asarray(got, dtype=float), np.asarray(want, dtype=float),
                                  rtol=rtol, atol=atol, equal_nan=True))
            ok = ok and np.shape(got) == np.shape(want)
        except (TypeError, ValueError):
            ok = False
        self.check(ok, mechanism, message, got=got, want=want, **detail)

    def raises(self, exc, func, mechanism, message=""):
        """`func` must raise one of `exc`."""
        self.event("judged:" + mechanism)
        try:
            out = func()
        except exc:
            return
        except Exception as e:
            raise Violation(mechanism, "%s: raised %r instead of %s" % (message, e, exc))
        raise Violation(mechanism, "%s: returned %r instead of raising %s" % (
            message, repr(out)[:300], exc))


class Rng(random.Random):
    """Python RNG with a numpy generator derived from the same seed."""

    def __init__(self, seed):
        random.Random.__init__(self, seed)
        self.np = np.random.default_rng(seed)

    def chance(self, p):
        return self.random() < p


def case_seed(prop, workload, base, k):
    return zlib.crc32(("%s/%s/%d/%d" % (prop, workload, base, k)).encode())


def load_check(prop):
    return importlib.import_module("checks." + prop.lower())


def plan(mod, tier):
    """List of (workload name, number of cases) for the tier."""
    out = []
    for w in mod.WORKLOADS:
        name, quick, thorough = w
        out.append((name, quick if tier == "quick" else thorough))
    return out


def reset_nilmtk():
    """Forget process-global nilmtk state between cases (public API only)."""
    import nilmtk
    nilmtk.global_meter_group.meters[:] = []
    nilmtk.global_meter_group.disabled_meters[:] = []
    nilmtk.ElecMeter.meter_devices.clear()
    cache = nilmtk.STATS_CACHE
    for el in list(cache.elements_below_key('/')):
        cache.remove('/' + el)


def _alarm(signum, frame):
    raise CaseTimeout("no answer after %d s" % CASE_TIMEOUT_S)


def run_case(mod, mon, workload, seed):
    """Run one case.  Returns None or a violation record."""
    func = getattr(mod, "w_" + workload)
    rng = Rng(seed)
    np.random.seed(seed % (2 ** 32))
    random.seed(seed)
    mon.begin_case()
    sink = io.StringIO()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT_S)
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            if not getattr(mod, "NO_NILMTK_RESET", False):
                reset_nilmtk()
            func(mon, rng)
        return None
    except Violation as v:
        return dict(mechanism=v.mechanism, message=v.message, detail=v.detail,
                    trace=mon._trace)
    except (MemoryError, KeyboardInterrupt):
        raise
    except OSError as e:
        import errno
        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM):
            raise
        return _exception_record(e, mon)
    except Exception as e:
        return _exception_record(e, mon)
    finally:
        signal.alarm(0)


def _exception_record(e, mon):
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for fr in tb:
        if "/nilmtk/" in fr.filename:
            where = "%s in %s" % (os.path.basename(fr.filename), fr.name)
    mech = "exception:%s:%s" % (type(e).__name__, where or "client")
    return dict(mechanism=mech, message=repr(e)[:500],
                detail={"traceback": traceback.format_exc()[-3500:]},
                trace=mon._trace)
