"""Prelude copied beside each demonstration (demo_util.py)"""
import contextlib
import io
import os
import sys

sys.path.insert(0, os.getcwd())
os.environ["MPLBACKEND"] = "Agg"
import casadi as ca
import numpy as np

from mpopt import mp

np.random.seed(0)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


class NLP:
    """The transcription of an optimizer, as functions"""

    def __init__(self, opt):
        prob, self.b = opt.create_nlp()
        self.nz = prob["x"].numel()
        p = ca.SX(0, 1) if isinstance(opt, mp.mpopt_adaptive) else prob["p"]
        self.np = ca.SX(p).numel()
        self.fn = ca.Function("n", [prob["x"], p], [prob["f"], prob["g"]])

    def f(self, z, p=()):
        return float(self.fn(z, list(p))[0])

    def g(self, z, p=()):
        return np.array(self.fn(z, list(p))[1]).ravel()


def check(cond, what):
    if not cond:
        print("FAIL:", what)
        sys.exit(1)


def close(a, b, what, tol=1e-6):
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
    check(a.shape == b.shape, "%s: %s values, expected %s" % (what, a.shape, b.shape))
    check(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))), "%s: %s, expected %s" % (what, a, b))


def has_row(rows, row, lb=None, ub=None, want_lb=None, want_ub=None, tol=1e-7):
    """Is there a constraint with these values (up to sign) at the sampled points?"""
    for k in range(rows.shape[0]):
        for s in (1, -1):
            if np.all(np.abs(rows[k] - s * row) <= tol * (1 + np.abs(row))):
                if want_lb is None:
                    return True
                lo, hi = (lb[k], ub[k]) if s == 1 else (-ub[k], -lb[k])
                if abs(lo - want_lb) < tol and abs(hi - want_ub) < tol:
                    return True
    return False


def nodes(p):
    """Chebyshev-Lobatto nodes in [-1, 1] (scheme "CGL")"""
    return -np.cos(np.pi * np.arange(p + 1) / p)


def times(orders, w, t0=0.0, tf=1.0):
    """Times of the nodes of a phase"""
    t, start = [t0], t0
    for p, h in zip(orders, w):
        t += list(start + h * (tf - t0) * (nodes(p)[1:] + 1) / 2)
        start += h * (tf - t0)
    return np.array(t)


def cat(*parts):
    """Matrices (nodes x components) are stored component after component"""
    return np.concatenate([np.asarray(p, float).T.ravel() for p in parts])


def excess(n, z, p=()):
    """Largest violation of the constraint bounds"""
    g = n.g(z, p)
    lb, ub = np.ravel(n.b["lbg"]), np.ravel(n.b["ubg"])
    return max(0.0, np.max(lb - g), np.max(g - ub))


def rows(n, zs, p=()):
    """Constraint values at several points: constraints x points"""
    return np.array([n.g(z, p) for z in zs]).T


def rand(n, k=4, seed=1):
    return np.random.RandomState(seed).uniform(0.5, 1.5, (k, n.nz))


class Stub:
    """Stands in for the NLP solver: returns what it is given"""

    def __init__(self, opt, answers=None):
        self.calls, self.answers, self.nz = [], answers, None
        self.opt = opt

    def __call__(self, **k):
        self.calls.append(k)
        x = k["x0"] if self.answers is None else self.answers[min(len(self.calls), len(self.answers)) - 1]
        return {"x": ca.DM(np.ravel(ca.DM(x).full())), "f": ca.DM(0), "g": ca.DM(0),
                "lam_x": ca.DM(0), "lam_g": ca.DM(0), "lam_p": ca.DM(0)}
