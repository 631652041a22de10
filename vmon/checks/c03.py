"""Quadrature weights"""
import numpy as np

from .. import colloc, ref
from .c02 import num

PROPERTY = "C03"
RULE = ("random scheme, reference interval, construction method and degree mixture; weights "
        "applied to random polynomials up to the degree the rule is exact for, over the whole "
        "interval and over random sub-intervals (empty and tiny ones included), composite weights to "
        "piecewise polynomials; non-trivial = distinct (scheme, interval, method, degrees).")
ASSUMPTIONS = ["symbolic weights carry the error of the idas integrator (< 2e-5)",
               "degrees up to 14 (symbolic) / 11 (numerical)"]
NEED = {"weights": 1000, "subinterval": 200, "similar_interval": 100, "gauss_degree": 100, "mixed_degrees": 100, "empty_interval": 20,
        "zero_end": 100, "other_degrees": 50}
PMAX = dict(symbolic=12, numerical=11)


def cases(tier, seed):
    return [dict(seed=s) for s in colloc.seeds(seed, 3, 800 if tier == "quick" else 5000)]


def run(case, mon):
    from .. import sut

    mp = sut.mp
    rng = np.random.default_rng(case["seed"])
    sch, tau, dmat, orders = colloc.draw(rng, PMAX, high=28)
    sut.reset(tau, dmat)
    tau = tuple(map(float, tau))
    L = tau[1] - tau[0]
    mon.nontrivial(sch, tau, dmat, orders)
    mon.sample(scheme=sch, interval=tau, method=dmat, degrees=orders)
    mon.event("mixed_degrees", len(set(orders)) > 1)
    tol = (2e-5 if dmat == "symbolic" else 1e-8) * max(L, 0.2)
    with mon.sut("building the collocation"):
        c = mp.Collocation(orders, sch)
    for p in sorted(set(orders)):
        x = ref.nodes(sch, p, *tau)
        tl = tol * 4 + colloc.noise(x, 0, dmat) * L * 2
        with mon.sut("get_quadrature_weights"):
            w = num(c.get_quadrature_weights(p)).ravel()
        mon.event("weights")
        if not mon.check(w.shape == (p + 1,), "shape", "number of weights", got=w.shape):
            continue
        exact = {"LGR": max(1, 2 * p - 2), "LGL": 2 * p - 1, "CGL": p + (p % 2 == 0)}[sch]
        for d in (p, exact):
            q = colloc.Poly(rng, d, tau)
            mon.event("gauss_degree", d > p)
            mon.close(w @ q(x), q.integral(*tau), "weights", "integral of a degree %d polynomial" % d,
                      rtol=0, atol=tl, scheme=sch, degree=p, method=dmat)
        a, b = np.sort(rng.uniform(tau[0], tau[1], 2))
        kind = int(rng.integers(0, 6))
        a, b = [(a, b), (tau[0], b), (a, tau[1]), (a, b), (a, a), (tau[0], tau[0] + 4e-16 * L)][kind]
        zero = tau[0] < 0 < tau[1] and rng.uniform() < 0.4
        if zero:  # an end at zero is an end like any other
            a, b = [(0.0, abs(b) if b else 0.1), (-abs(a) if a else -0.1, 0.0)][int(rng.integers(0, 2))]
            a, b = max(a, tau[0]), min(b, tau[1])
            kind = 0
            mon.event("zero_end")
        mon.event("empty_interval", kind > 3)
        if b - a > 1e-3 * L or kind > 3:
            iv = [(a, b)]
            if kind < 3 and b < tau[1] - 0.02 * L and rng.uniform() < 0.5:
                iv.append((a, b + 0.01 * L))  # same start
            elif kind < 3 and a > tau[0] + 0.02 * L and rng.uniform() < 0.7:
                d = rng.uniform(0.3, 0.9) * min(a - tau[0], tau[1] - b)
                iv.append((a - d, b + d) if rng.uniform() < 0.5 else (a - d, b - d if b - d > a else b))
            W = []
            for ab in iv:
                with mon.sut("get_quadrature_weights over a sub-interval"):
                    W.append(num(c.get_quadrature_weights(p, tau0=ab[0], tau1=ab[1])).ravel())
            q = colloc.Poly(rng, p, tau)
            mon.event("similar_interval", len(iv) > 1)
            for ab, w in zip(iv, W):
                mon.event("weights")
                mon.event("subinterval")
                mon.close(w @ q(x), q.integral(*ab), "subinterval", "integral over a sub-interval", rtol=0,
                          atol=tl, scheme=sch, degree=p, method=dmat, interval=ab)
    nodes = [ref.nodes(sch, p, *tau) for p in orders]
    pieces, vals = colloc.composite(rng, orders, tau, nodes)
    N = sum(orders) + 1
    lim = [tau]
    a, b = np.sort(rng.uniform(tau[0], tau[1], 2))
    if b - a > 1e-3 * L:
        lim.append((a, b))
        if b < tau[1] - 0.02 * L:
            lim.append((a, b + 0.01 * L))
    if tau[0] < 0 < tau[1]:
        lim += [(tau[0], 0.0), (0.0, tau[1])]
        mon.event("zero_end", 2)
    extra = [int(p) for p in rng.integers(1, 8, int(rng.integers(1, 5)))]
    pe, ve = colloc.composite(rng, extra, tau, [ref.nodes(sch, p, *tau) for p in extra])
    with mon.sut("composite weights of other degrees"):
        w = num(c.get_composite_quadrature_weights(list(extra)))
    mon.event("other_degrees", not set(extra) <= set(orders))
    if mon.check(w.size == sum(extra) + 1, "shape", "number of composite weights", got=w.shape):
        mon.close(w.ravel() @ ve, sum(q.integral(*tau) for q in pe), "composite_other",
                  "weights for degrees other than the constructor's", rtol=0,
                  atol=(tol * 4 + L * max(colloc.noise(ref.nodes(sch, k, *tau), 0, dmat) for k in extra))
                  * len(extra) * max(1.0, max(q.mag() for q in pe)), degrees=extra, built_for=orders)
    for lo, hi in lim:
        with mon.sut("get_composite_quadrature_weights"):
            if (lo, hi) == tau:
                W = num(c.get_composite_quadrature_weights())
                W2 = num(c.get_composite_quadrature_weights(list(orders)))
            else:
                W = W2 = num(c.get_composite_quadrature_weights(orders, tau0=lo, tau1=hi))
        for w in (W, W2):
            mon.event("weights")
            if mon.check(w.size == N, "shape", "number of composite weights", got=w.shape):
                want = sum(q.integral(lo, hi) for q in pieces)
                mon.close(w.ravel() @ vals, want, "composite", "integral of a piecewise polynomial",
                          rtol=0, atol=(tol * 4 + L * max(
                              colloc.noise(n, 0, dmat) for n in nodes)) * len(orders) * max(
                                  1.0, max(q.mag() for q in pieces)),
                          degrees=orders, scheme=sch, method=dmat)
    sub = rng.uniform() < 0.4  # any degree on request
    keys = [int(p) for p in rng.permutation(list(set(orders) | {int(rng.integers(1, 8))}))] if sub else list(orders)
    with mon.sut("get_quad_weight_matrices"):
        Q = c.get_quad_weight_matrices(list(keys)) if sub else c.get_quad_weight_matrices()
    if len(lim) > 1:
        lo, hi = lim[1]
        with mon.sut("get_quad_weight_matrices over a sub-interval"):
            Q2 = c.get_quad_weight_matrices(list(keys), tau0=lo, tau1=hi)
        for p in sorted(set(keys)):
            if mon.check(p in Q2, "missing_degree", "weights for every degree", degree=p):
                q, x = colloc.Poly(rng, p, tau), ref.nodes(sch, p, *tau)
                mon.event("subinterval")
                mon.close(num(Q2[p]).ravel() @ q(x), q.integral(lo, hi), "subinterval",
                          "get_quad_weight_matrices over a sub-interval", rtol=0,
                          atol=tol * 4 + colloc.noise(x, 0, dmat) * L * 2, degree=p, interval=(lo, hi))
    for p in sorted(set(keys)):
        if mon.check(p in Q, "missing_degree", "weights for every degree", degree=p):
            q = colloc.Poly(rng, p, tau)
            mon.close(num(Q[p]).ravel() @ q(ref.nodes(sch, p, *tau)), q.integral(*tau), "weights",
                      "get_quad_weight_matrices", rtol=0, atol=tol * 4 + colloc.noise(ref.nodes(sch, p, *tau), 0, dmat) * L * 2, degree=p)
