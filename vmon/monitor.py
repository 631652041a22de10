"""Three-valued monitor: collects events, oracle evaluations and violations."""
import collections
import hashlib
import json
import traceback

import numpy as np


class Abort(Exception):
    """The current case cannot go on (a violation was already recorded)"""


class CaseTimeout(Exception):
    """The watchdog timer of the case went off; inside the code under test (see _Sut)
    this is a call that does not return"""


def jsonable(v, depth=0):
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    if isinstance(v, (np.integer, np.floating, np.bool_)):
        return v.item()
    if isinstance(v, np.ndarray):
        return jsonable(v.tolist(), depth + 1) if v.size <= 60 else {
            "shape": list(v.shape), "head": jsonable(v.ravel()[:20].tolist())}
    if isinstance(v, dict):
        return {str(k): jsonable(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple, set)):
        return [jsonable(x, depth + 1) for x in list(v)[:80]]
    return repr(v)[:300]


class Monitor:
    def __init__(self, prop, case):
        self.prop, self.case = prop, case
        self.events = collections.Counter()
        self.oracle = 0
        self.sigs = set()
        self.violations = []
        self.samples = []
        self.inconclusive = []
        self.sut_done = None  # the last call of the code under test that returned

    # ---- observation -----------------------------------------------------
    def event(self, name, n=1):
        self.events[name] += int(n)

    def nontrivial(self, *sig):
        h = hashlib.sha1(json.dumps(jsonable(sig), sort_keys=True).encode()).hexdigest()
        self.sigs.add(h[:16])

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(jsonable(kw))

    # ---- verdicts ----------------------------------------------------------
    def fail(self, key, msg, **witness):
        if len(self.violations) < 8:
            self.violations.append(
                {"key": key, "msg": msg, "witness": jsonable(witness)}
            )
        self.events["violations"] += 1

    def check(self, cond, key, msg="", **witness):
        self.oracle += 1
        if not bool(cond):
            self.fail(key, msg, **witness)
            return False
        return True

    def close(self, got, want, key, msg="", rtol=1e-7, atol=1e-9, **witness):
        """Element-wise numerical agreement, shape included; NaN never agrees"""
        self.oracle += 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except Exception as e:
            self.fail(key, msg + " (not numeric: %r)" % e, got=got, want=want, **witness)
            return False
        if g.shape != w.shape:
            self.fail(key, msg + " (shape %s, expected %s)" % (g.shape, w.shape),
                      got=g, want=w, **witness)
            return False
        if g.size == 0:
            return True
        with np.errstate(invalid="ignore"):
            same = g == w  # infinities
            err = np.where(same, 0.0, np.abs(g - w))
            lim = atol + rtol * np.where(np.isfinite(w), np.abs(w), 0)
        bad = ~(err <= lim)
        if bad.any():
            i = int(np.argmax(np.where(np.isnan(err), np.inf, err - lim).ravel()))
            self.fail(key, msg, index=i, got_at=g.ravel()[i], want_at=w.ravel()[i],
                      n_bad=int(bad.sum()), got=g, want=w, **witness)
            return False
        return True

    def sut(self, what, key="exception"):
        return _Sut(self, what, key)

    def undecided(self, why):
        self.inconclusive.append(why)
        raise Abort(why)


class _Sut:
    """The code under test runs in here: an exception it raises on valid input is
    a violation, not a harness error."""

    def __init__(self, mon, what, key):
        self.mon, self.what, self.key = mon, what, key

    def __enter__(self):
        return self.mon

    def __exit__(self, et, ev, tb):
        if et is None:
            self.mon.sut_done = self.what
        if et is None or issubclass(et, (Abort, KeyboardInterrupt, SystemExit)):
            return False
        if not issubclass(et, Exception):
            return False
        frames = traceback.extract_tb(tb)
        self.mon.oracle += 1
        self.mon.fail(
            self.key,
            "%s raised %s: %s" % (self.what, et.__name__, str(ev)[:300]),
            where=["%s:%d" % (f.name, f.lineno) for f in frames[-4:]],
        )
        raise Abort(self.what) from None
