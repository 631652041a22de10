"""Collocation nodes"""
import numpy as np

from .. import colloc, ref

PROPERTY = "C01"
RULE = ("nodes of every scheme (LGR, LGL, CGL) for every degree in a range, on the default and on "
        "random reference intervals, asked through Collocation (alone, in degree mixtures, and "
        "on demand) and CollocationRoots; non-trivial = distinct (scheme, degree, interval).")
ASSUMPTIONS = ["reference nodes: Newton-polished roots of Legendre expressions, cos grid",
               "the reference interval is configured by CollocationRoots._TAU_MIN/_TAU_MAX"]
NEED = {"node_sets": 300, "scheme_LGR": 50, "scheme_LGL": 50, "scheme_CGL": 50, "custom_interval": 50}


def cases(tier, seed):
    top = 45 if tier == "quick" else 90
    out = []
    ss = colloc.seeds(seed, 1, 10000)
    k = 0
    for p in range(1, top + 1):
        for sch in colloc.SCHEMES:
            for t in ([(-1, 1), (0, 1)] if tier == "quick" else colloc.TAUS[1:]):
                out.append(dict(scheme=sch, p=p, tau=t, seed=ss[k % 10000]))
                k += 1
    for i in range(60 if tier == "quick" else 600):
        rng = np.random.default_rng(ss[-1 - i])
        sch, tau, _, _ = colloc.draw(rng, dict(numerical=5, symbolic=5))
        out.append(dict(scheme=sch, p=int(rng.integers(1, top + 1)), tau=tau, seed=ss[-1 - i]))
    return out


def run(case, mon):
    from .. import sut

    mp = sut.mp
    rng = np.random.default_rng(case["seed"])
    sch, p, tau = case["scheme"], case["p"], tuple(case["tau"])
    sut.reset(tau, "numerical")
    want = ref.nodes(sch, p, *map(float, tau))
    others = sorted(set(int(x) for x in rng.integers(1, 12, 3)))
    with mon.sut("computing the nodes"):
        c = mp.Collocation([p] + others, sch)
        got = np.asarray(c.roots[p], float)
        got2 = np.asarray(mp.CollocationRoots(sch)._taus_fn(p), float)
        rest = {q: np.asarray(c.roots[q], float) for q in others}
        c2 = mp.Collocation([1], sch)
        c2.init_polynomials([p])
        got3 = np.asarray(c2.roots[p], float)
        c3 = mp.Collocation([2], sch)
        w = c3.get_quadrature_weights(p)  # degree the object was not created for
        got4 = np.asarray(c3.roots[p], float)
    mon.event("node_sets", 4 + len(others))
    mon.event("scheme_" + sch)
    mon.event("custom_interval", tau != (-1, 1))
    mon.nontrivial(sch, p, tau)
    mon.sample(scheme=sch, degree=p, interval=tau, nodes=got)
    one(mon, got, want, tau, sch, p)
    one(mon, got2, want, tau, sch, p)
    one(mon, got3, want, tau, sch, p)
    one(mon, got4, want, tau, sch, p)
    for q in others:
        one(mon, rest[q], ref.nodes(sch, q, *map(float, tau)), tau, sch, q)
    mon.check(c.tau0 == tau[0] and c.tau1 == tau[1], "interval", "reference interval kept",
              got=(c.tau0, c.tau1))


def one(mon, got, want, tau, sch, p):
    L = tau[1] - tau[0]
    if not mon.check(got.shape == (p + 1,), "count", "number of nodes", got=got, scheme=sch, degree=p):
        return
    mon.check(np.all(np.diff(got) > 0), "order", "nodes strictly increasing", got=got, scheme=sch)
    mon.close(got[[0, -1]], np.array(tau, float), "ends", "first and last node", rtol=0,
              atol=4e-16 * max(1, abs(tau[0]), abs(tau[1])) , scheme=sch, degree=p)
    mon.close(got, want, "nodes", "nodes of %s degree %d" % (sch, p), rtol=0, atol=2e-12 * max(1.0, L),
              interval=tau)
