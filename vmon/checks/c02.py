"""Differentiation matrices"""
import numpy as np

from .. import colloc, ref

PROPERTY = "C02"
RULE = ("random scheme, reference interval, construction method and degree mixture; matrices "
        "applied to random (continuous piecewise) polynomials of the segment degrees, compared "
        "with the exact derivatives at nodes and at random points (different numbers of points "
        "per segment, none included), orders 1 and 2; non-trivial = distinct (scheme, interval, "
        "method, degrees).")
ASSUMPTIONS = ["degrees up to 14 (symbolic) / 10 (numerical); the numerical construction uses the power "
               "basis, its a priori rounding error bound is allowed for"]
NEED = {"matrices": 1000, "rows": 5000, "order2": 300, "mixed_degrees": 100, "similar_points": 300,
        "other_degrees": 100}
PMAX = dict(symbolic=14, numerical=10)


def cases(tier, seed):
    return [dict(seed=s) for s in colloc.seeds(seed, 2, 1000 if tier == "quick" else 6000)]


def num(m):
    return np.array(m.full() if hasattr(m, "full") else m, dtype=float)


def run(case, mon):
    from .. import sut

    mp = sut.mp
    rng = np.random.default_rng(case["seed"])
    sch, tau, dmat, orders = colloc.draw(rng, PMAX, high=28)
    sut.reset(tau, dmat)
    tau = tuple(map(float, tau))
    nodes = [ref.nodes(sch, p, *tau) for p in orders]
    mon.nontrivial(sch, tau, dmat, orders)
    mon.sample(scheme=sch, interval=tau, method=dmat, degrees=orders)
    mon.event("mixed_degrees", len(set(orders)) > 1)
    mon.event("method_" + dmat)
    with mon.sut("building the collocation"):
        c = mp.Collocation(orders, sch)
    tol = 1e-6
    pieces, vals = colloc.composite(rng, orders, tau, nodes)
    N = sum(orders) + 1
    st = np.concatenate([[0], np.cumsum(orders)])
    for order in (1, 2):
        mon.event("order2", order == 2)
        # per degree
        p = int(rng.choice(orders))
        q = colloc.Poly(rng, p, tau)
        with mon.sut("get_diff_matrix"):
            D = num(c.get_diff_matrix(p, order=order))
        x = ref.nodes(sch, p, *tau)
        lim = lambda ps, d, o: tol * d * 10 ** (o - 1) + max(
            colloc.noise(ref.nodes(sch, k, *tau), o, dmat) for k in set(ps)) * vm
        vm = max(1.0, np.abs(vals).max())
        mon.event("matrices")
        mon.event("rows", len(x))
        if mon.check(D.shape == (p + 1, p + 1), "shape", "shape of D", got=D.shape, degree=p):
            mon.close(D @ q(x), q(x, order), "diff", "D of degree %d, order %d" % (p, order),
                      rtol=0, atol=lim([p], q.mag(order), order), scheme=sch, method=dmat)
        xi = colloc.points(rng, tau, int(rng.integers(1, 9)), 0.03)
        if rng.uniform() < 0.4:
            rng.shuffle(xi)
        near = []
        for pts in (xi, colloc.similar(rng, xi), colloc.near(rng, xi, tau)):
            with mon.sut("get_diff_matrix at points"):
                D = num(c.get_diff_matrix(p, taus=pts, order=order))
            near.append((pts, D))
        mon.event("similar_points", len(xi) > 2)
        for pts, D in near:
            mon.event("matrices")
            mon.event("rows", len(pts))
            mon.close(D @ q(x), q(pts, order), "diff_at", "D of degree %d at points" % p, rtol=0,
                      atol=lim([p], q.mag(order), order), scheme=sch, method=dmat, order=order)
        # composite at the nodes: a shared node belongs to the segment it ends
        with mon.sut("get_composite_differentiation_matrix"):
            D = num(c.get_composite_differentiation_matrix(order=order))
            D2 = num(c.get_composite_differentiation_matrix(list(orders), order=order))
        with mon.sut("get_diff_matrices"):
            G = c.get_diff_matrices(*([list(orders)] if rng.uniform() < 0.5 else []), order=order)
        if mon.check(set(G) == set(orders), "degrees", "one matrix per degree", got=sorted(G)):
            for k in set(orders):
                q, x = colloc.Poly(rng, k, tau), ref.nodes(sch, k, *tau)
                mon.event("matrices")
                mon.close(num(G[k]) @ q(x), q(x, order), "diff", "D of one degree", rtol=0,
                          atol=tol * q.mag(order) * 10 ** (order - 1) + colloc.noise(x, order, dmat)
                          * max(1.0, np.abs(q(x)).max()),
                          scheme=sch, degree=k, method=dmat, order=order)
        for M in (D, D2):
            mon.event("matrices")
            mon.event("rows", N)
            want = np.concatenate([pieces[i](nodes[i] if i == 0 else nodes[i][1:], order)
                                   for i in range(len(orders))])
            if mon.check(M.shape == (N, N), "shape", "shape of composite D", got=M.shape):
                mon.close(M @ vals, want, "composite", "composite D", rtol=0,
                          atol=lim(orders, max(a.mag(order) for a in pieces), order),
                          degrees=orders, scheme=sch, method=dmat, order=order)
        # for other degrees than the constructor's
        extra = [int(k) for k in rng.integers(1, 8, int(rng.integers(1, 5)))]
        xe = [ref.nodes(sch, k, *tau) for k in extra]
        pe, ve = colloc.composite(rng, extra, tau, xe)
        with mon.sut("composite matrices of other degrees"):
            M = num(c.get_composite_differentiation_matrix(list(extra), order=order))
        mon.event("other_degrees", not set(extra) <= set(orders))
        want = np.concatenate([pe[i](xe[i] if i == 0 else xe[i][1:], order) for i in range(len(extra))])
        if mon.check(M.shape == (len(ve), len(ve)), "shape", "shape of composite D", got=M.shape):
            mon.close(M @ ve, want, "composite_other", "composite D of other degrees", rtol=0,
                      atol=tol * max(a.mag(order) for a in pe) * 10 ** (order - 1) + max(
                          colloc.noise(q, order, dmat) for q in xe) * max(1.0, np.abs(ve).max()),
                      degrees=extra, built_for=orders, scheme=sch, method=dmat, order=order)
        # composite at other points, segments may have none
        taus = []
        for i in range(len(orders)):
            k = int(rng.integers(0, 6)) if rng.uniform() < 0.7 else 3
            taus.append(colloc.points(rng, tau, k))
        if sum(len(t) for t in taus) == 0:
            taus[0] = np.array([tau[0]])
        if rng.uniform() < 0.4:
            taus = colloc.echo(rng, taus, tau, 0.5)
        if rng.uniform() < 0.3:
            taus = [t.tolist() for t in taus]
        for taus in (taus, [colloc.similar(rng, t) for t in taus]):
            own = rng.uniform() < 0.3  # the constructor's degrees are the default
            with mon.sut("get_composite_interpolation_Dmatrix_at"):
                M = num(c.get_composite_interpolation_Dmatrix_at(taus, *([] if own else [orders]), order=order))
                S = c.get_interpolation_Dmatrices_at(taus, *([] if own else [orders]), order=order)
            mon.event("own_degrees", own)
            if mon.check(sorted(S) == list(range(len(orders))), "segments", "one matrix per segment", got=sorted(S)):
                for i, q in enumerate(pieces):
                    if len(taus[i]):
                        mon.event("matrices")
                        mon.close(num(S[i]) @ q(nodes[i]), q(taus[i], order), "segment_at",
                                  "D of one segment at points", rtol=0, atol=lim(orders, q.mag(order), order),
                                  degrees=orders, scheme=sch, method=dmat, order=order, segment=i)
            want = np.concatenate([pieces[i](taus[i], order) for i in range(len(orders))])
            mon.event("matrices")
            mon.event("rows", len(want))
            mon.event("empty_segments", sum(len(t) == 0 for t in taus))
            if mon.check(M.shape == (len(want), N), "shape", "shape of D at points", got=M.shape):
                mon.close(M @ vals, want, "composite_at", "composite D at points", rtol=0,
                          atol=lim(orders, max(a.mag(order) for a in pieces), order),
                          degrees=orders, scheme=sch, method=dmat, order=order,
                          counts=[len(t) for t in taus])
