"""Shared generation for the numerical-operator checks"""
import numpy as np
from numpy.polynomial import chebyshev as Ch

SCHEMES = ("LGR", "LGL", "CGL")
TAUS = [(-1, 1), (-1, 1), (0, 1), (-2.0, 0.5), (0.25, 3.5), (-1.0, 0.0)]


def seeds(seed, salt, n):
    ss = np.random.SeedSequence([seed, 104729, salt])
    return [int(x) for x in ss.generate_state(n)]


def draw(rng, pmax, max_seg=5, high=0):
    """scheme, interval, method, degrees"""
    scheme = SCHEMES[int(rng.integers(0, 3))]
    tau = TAUS[int(rng.integers(0, len(TAUS)))]
    if rng.uniform() < 0.2:
        a = float(np.round(rng.uniform(-3, 3), 3))
        tau = (a, a + float(np.round(rng.uniform(0.2, 4), 3)))
    dmat = "numerical" if rng.uniform() < 0.5 else "symbolic"
    hi = pmax[dmat]
    n = int(rng.integers(1, max_seg + 1))
    u = rng.uniform()
    if u < 0.2:
        orders = [int(rng.integers(1, hi + 1))] * n
    elif u < 0.6:
        orders = [int(p) for p in rng.integers(1, min(hi, 6) + 1, n)]
    else:
        orders = [int(p) for p in rng.integers(1, hi + 1, n)]
    v = rng.uniform()
    if v < 0.06:  # many segments
        orders = [int(p) for p in rng.integers(1, 5, int(rng.integers(max_seg + 1, 25)))]
    elif v < 0.12 and high and dmat == "symbolic":  # high degree
        orders = [int(p) for p in rng.integers(hi, high + 1, int(rng.integers(1, 3)))]
    return scheme, tau, dmat, orders


class Poly:
    """Random polynomial of degree p on [tau0, tau1], values of order one"""

    def __init__(self, rng, p, tau):
        self.c = rng.uniform(-1, 1, p + 1)
        self.c[p] = rng.choice([-1.0, 1.0]) * rng.uniform(0.5, 1)
        self.tau = tau
        self.k = 2.0 / (tau[1] - tau[0])

    def _s(self, x):
        return (np.asarray(x, float) - self.tau[0]) * self.k - 1.0

    def __call__(self, x, order=0):
        c = Ch.chebder(self.c, order) if order else self.c
        return Ch.chebval(self._s(x), c) * self.k ** order

    def integral(self, a, b):
        c = Ch.chebint(self.c)
        return (Ch.chebval(self._s(b), c) - Ch.chebval(self._s(a), c)) / self.k

    def mag(self, order=0):
        return max(1e-3, np.abs(self(np.linspace(self.tau[0], self.tau[1], 60), order)).max())


def composite(rng, orders, tau, nodes):
    """A continuous piecewise polynomial; returns pieces and its samples at the nodes"""
    pieces, vals = [], []
    shift = 0.0
    for i, p in enumerate(orders):
        q = Poly(rng, p, tau)
        if i:
            q.c[0] += vals[-1] - q(tau[0])
        v = q(nodes[i])
        pieces.append(q)
        vals = list(vals) + list(v if i == 0 else v[1:])
    return pieces, np.array(vals)


def points(rng, tau, n, wide=0.0):
    L = tau[1] - tau[0]
    return np.sort(rng.uniform(tau[0] - wide * L, tau[1] + wide * L, n))


def noise(x, order=0, dmat="numerical", rel=1e-15):
    """A priori error level of evaluating the Lagrange basis on x in the power basis (what
    double precision allows for the "numerical" construction), for data of order one"""
    if dmat != "numerical":
        return 0.0
    x = np.asarray(x, float)
    X = max(np.abs(x).max(), 1e-3)
    n = len(x)
    tot = 0.0
    for j in range(n):
        d = np.abs(x[j] - np.delete(x, j))
        tot += np.prod((X + np.abs(np.delete(x, j))) / d)
    return rel * 20 * n * tot * (n / X) ** order


def near(rng, x, tau):
    """The same points, or slightly moved (one of them or all)"""
    y = np.array(x, float)
    if len(y) and rng.uniform() < 0.75:
        d = 10.0 ** -rng.uniform(2.3, 5) * (tau[1] - tau[0]) * rng.choice([-1, 1], len(y))
        if rng.uniform() < 0.4:
            d[np.arange(len(y)) != rng.integers(0, len(y))] = 0
        if rng.uniform() < 0.5:
            d = np.abs(d).max() * np.sign(d[np.argmax(np.abs(d))]) * (d != 0)
        y = np.clip(y + d, *tau)
        if len(np.unique(y)) < len(y):
            return np.array(x, float)
    return y


def echo(rng, taus, tau, p=0.3):
    """Points of some segments nearly (or exactly) those of an earlier one"""
    for i in range(1, len(taus)):
        if rng.uniform() < p:
            j = i - 1 if rng.uniform() < 0.7 else int(rng.integers(0, i))
            if len(taus[j]):
                taus[i] = near(rng, taus[j], tau)
    return taus


def similar(rng, x):
    """Another set of as many points with the same ends and sum"""
    y = np.array(x, float)
    n = len(y)
    if n >= 4:
        i, j = sorted(rng.choice(np.arange(1, n - 1), 2, replace=False))
        d = rng.uniform(0.2, 0.8) * min(np.abs(np.diff(np.sort(y))).min() + 1e-3, 0.1)
        y[i] += d
        y[j] -= d
    elif n == 3:
        y[1] += rng.choice([-1, 1]) * 0.05
    elif n == 2:
        y = y[::-1].copy()
    return y
