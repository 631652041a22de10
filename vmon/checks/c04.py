"""Interpolation matrices"""
import numpy as np

from .. import colloc, ref
from .c02 import num

PROPERTY = "C04"
RULE = ("random scheme, reference interval, construction method and degree mixture; matrices "
        "applied to random (continuous piecewise) polynomials, compared with exact values at "
        "random points (unsorted, repeated, on the nodes, different numbers per segment, none); "
        "non-trivial = distinct (scheme, interval, method, degrees).")
ASSUMPTIONS = ["degrees up to 15 (symbolic) / 11 (numerical)"]
NEED = {"matrices": 500, "rows": 3000, "empty_segments": 50, "identity": 100, "mixed_degrees": 100, "similar_points": 300,
        "other_degrees": 100}
PMAX = dict(symbolic=15, numerical=11)


def cases(tier, seed):
    return [dict(seed=s) for s in colloc.seeds(seed, 4, 1000 if tier == "quick" else 6000)]


def run(case, mon):
    from .. import sut

    mp = sut.mp
    rng = np.random.default_rng(case["seed"])
    sch, tau, dmat, orders = colloc.draw(rng, PMAX, high=28)
    sut.reset(tau, dmat)
    tau = tuple(map(float, tau))
    nodes = [ref.nodes(sch, p, *tau) for p in orders]
    mon.nontrivial(sch, tau, dmat, orders)
    mon.sample(scheme=sch, interval=tau, method=dmat, degrees=orders)
    mon.event("mixed_degrees", len(set(orders)) > 1)
    tol = 1e-9 + max(colloc.noise(n, 0, dmat) for n in nodes)
    with mon.sut("building the collocation"):
        c = mp.Collocation(orders, sch)
    N = sum(orders) + 1
    for p in sorted(set(orders)):
        x = ref.nodes(sch, p, *tau)
        q = colloc.Poly(rng, p, tau)
        xi = rng.uniform(tau[0], tau[1], int(rng.integers(1, 12)))
        if rng.uniform() < 0.3:
            xi = np.concatenate([xi, xi[:2], x[[0, -1]]])
        sim, xn = colloc.similar(rng, xi), colloc.near(rng, xi, tau)
        with mon.sut("get_interpolation_matrix"):
            I = num(c.get_interpolation_matrix(xi, p))
            I2 = num(c.get_interpolation_matrix(sim, p))
            I3 = num(c.get_interpolation_matrix(xn, p))
            E = num(c.get_interpolation_matrix(x, p))
        mon.event("matrices", 3)
        mon.event("similar_points", len(xi) > 2)
        mon.event("rows", 2 * len(xi))
        mon.event("identity")
        for pts, M in ((xi, I), (sim, I2), (xn, I3)):
            if mon.check(M.shape == (len(pts), p + 1), "shape", "shape of I", got=M.shape):
                mon.close(M @ q(x), q(pts), "interp", "interpolation of degree %d" % p, rtol=0,
                          atol=tol * max(1.0, q.mag()), scheme=sch, method=dmat)
        mon.close(E, np.eye(p + 1), "identity", "interpolation at the nodes", rtol=0, atol=tol,
                  scheme=sch, degree=p)
    pieces, vals = colloc.composite(rng, orders, tau, nodes)
    mg = max(q.mag() for q in pieces)
    for rep in range(3):
        if rep == 2:
            taus = [colloc.similar(rng, t) for t in taus]
        taus = [] if rep < 2 else taus
        for i in range(len(orders) if rep < 2 else 0):
            k = int(rng.integers(0, 7)) if rng.uniform() < 0.8 else 4
            t = rng.uniform(tau[0], tau[1], k)
            taus.append(np.sort(t) if rng.uniform() < 0.6 else t)
        if sum(len(t) for t in taus) == 0:
            taus[-1] = np.array([tau[1]])
        if rep == 1:
            taus = colloc.echo(rng, taus, tau, 0.5)
        if rng.uniform() < 0.3:
            taus = [list(map(float, t)) for t in taus]
        own = rng.uniform() < 0.3  # the constructor's degrees are the default
        with mon.sut("get_composite_interpolation_matrix"):
            M = num(c.get_composite_interpolation_matrix(taus, *([] if own else [orders])))
            S = c.get_interpolation_matrices(taus, *([] if own else [orders]))
        mon.event("own_degrees", own)
        if mon.check(sorted(S) == list(range(len(orders))), "segments", "one matrix per segment", got=sorted(S)):
            for i, q in enumerate(pieces):
                if len(taus[i]):
                    mon.event("matrices")
                    mon.close(num(S[i]) @ q(nodes[i]), q(taus[i]), "segment", "interpolation of one segment",
                              rtol=0, atol=tol * max(1.0, mg), degrees=orders, scheme=sch, method=dmat, segment=i)
        want = np.concatenate([pieces[i](taus[i]) for i in range(len(orders))])
        mon.event("matrices")
        mon.event("rows", len(want))
        mon.event("empty_segments", sum(len(t) == 0 for t in taus))
        if mon.check(M.shape == (len(want), N), "shape", "shape of composite I", got=M.shape):
            mon.close(M @ vals, want, "composite", "composite interpolation", rtol=0, atol=tol * max(1.0, mg),
                      degrees=orders, scheme=sch, method=dmat, counts=[len(t) for t in taus])
    extra = [int(k) for k in rng.integers(1, 8, int(rng.integers(1, 5)))]
    pe, ve = colloc.composite(rng, extra, tau, [ref.nodes(sch, k, *tau) for k in extra])
    te = [colloc.points(rng, tau, int(rng.integers(1, 5))) for _ in extra]
    with mon.sut("composite interpolation of other degrees"):
        M = num(c.get_composite_interpolation_matrix(te, list(extra)))
    mon.event("other_degrees", not set(extra) <= set(orders))
    if mon.check(M.shape == (sum(map(len, te)), len(ve)), "shape", "shape of composite I", got=M.shape):
        mon.close(M @ ve, np.concatenate([q(x) for q, x in zip(pe, te)]), "composite_other",
                  "composite interpolation of other degrees", rtol=0,
                  atol=(1e-9 + max(colloc.noise(ref.nodes(sch, k, *tau), 0, dmat) for k in extra))
                  * max(1.0, max(q.mag() for q in pe)), degrees=extra, built_for=orders)
    with mon.sut("get_composite_interpolation_matrix at the nodes"):
        M = num(c.get_composite_interpolation_matrix(nodes, orders))
    want = np.concatenate([pieces[i](nodes[i]) for i in range(len(orders))])
    mon.close(M @ vals, want, "nodes", "composite interpolation at the nodes", rtol=0, atol=tol * max(1.0, mg))
