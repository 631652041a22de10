"""The two ways of building the numerical operators"""
import casadi as ca
import numpy as np

from .. import colloc, gen, ref
from ..trans import arr, case_list, random_nodes

PROPERTY = "C29"
RULE = ("every operator of random schemes, degrees, intervals and points, and the NLP, residuals "
        "and post-processed data of random problems, built in the symbolic and in the numerical "
        "way in random order with switches in between; non-trivial = distinct (scheme, degrees, "
        "interval, problem).")
ASSUMPTIONS = ["objects are used under the setting they were created with",
               "the numerical way is accurate to the rounding level of the power basis, the "
               "symbolic weights to the tolerance of the integrator"]
NEED = {"operators": 2000, "nlps": 60, "switches": 200, "residual_sets": 50, "post_data": 60,
        "weights": 200, "high_degrees": 20}
CASE_LIMIT = 200


def cases(tier, seed):
    return case_list(tier, seed, salt=29, quick=500)


def run(case, mon):
    from .. import sut

    rng = np.random.default_rng(case["seed"])
    if rng.uniform() < 0.6:
        operators(sut.mp, rng, mon, sut)
    else:
        problem(sut.mp, rng, mon, sut)


def both(mon, sut, mp, tau, rng, f):
    """Results of f under both settings, created in random order with a switch back"""
    seq = ["symbolic", "numerical"]
    if rng.uniform() < 0.5:
        seq.reverse()
    if rng.uniform() < 0.4:
        seq.append(seq[0])
    out = []
    for k, d in enumerate(seq):
        sut.reset(tau, d)
        mon.event("switches", k > 0)
        with mon.sut("building and using operators (%s)" % d):
            out.append(f())
    return seq, out


def operators(mp, rng, mon, sut):
    scheme, tau, _, orders = colloc.draw(rng, dict(symbolic=9, numerical=9))
    if rng.uniform() < 0.15:
        orders = [int(p) for p in rng.integers(9, 16, int(rng.integers(1, 3)))]
        mon.event("high_degrees")
    L = tau[1] - tau[0]
    taus = [colloc.points(rng, tau, int(rng.integers(1, 6))) for _ in orders]
    a = float(rng.uniform(tau[0], tau[1]))
    b = float(a + rng.uniform(0, 1) * (tau[1] - a))

    def f():
        c = mp.Collocation(list(orders), scheme)
        p = int(orders[0])
        o = {}
        o["roots"] = np.concatenate([np.ravel(arr(c.roots[q])) for q in sorted(set(orders))])
        o["D"] = arr(c.get_diff_matrix(p))
        o["D2"] = arr(c.get_diff_matrix(p, order=2)) if p > 1 else np.zeros(1)
        o["Dat"] = arr(c.get_diff_matrix(p, taus=taus[0]))
        o["D2at"] = arr(c.get_diff_matrix(p, taus=taus[0], order=2)) if p > 1 else np.zeros(1)
        o["w"] = arr(c.get_quadrature_weights(p)).ravel()
        o["wab"] = arr(c.get_quadrature_weights(p, a, b)).ravel()
        o["I"] = arr(c.get_interpolation_matrix(taus[0], p))
        o["compD"] = arr(c.get_composite_differentiation_matrix())
        o["compW"] = arr(c.get_composite_quadrature_weights()).ravel()
        o["compI"] = arr(c.get_composite_interpolation_matrix(taus, list(orders)))
        o["compDat"] = arr(c.get_composite_interpolation_Dmatrix_at(taus, list(orders)))
        return o

    seq, out = both(mon, sut, mp, tau, rng, f)
    mon.nontrivial(scheme, tau, orders)
    mon.sample(scheme=scheme, interval=tau, degrees=orders, order_of_settings=seq)
    x = [ref.nodes(scheme, p, *tau) for p in orders]
    nz = [max(colloc.noise(q, k) for q in x) for k in range(3)]
    order = dict(D=1, D2=2, Dat=1, D2at=2, compD=1, compDat=1)
    for o in out[1:]:
        for k in out[0]:
            mon.event("operators")
            u, v = out[0][k], o[k]
            d = order.get(k, 0)
            at = 1e-9 + 2 * nz[d] + 1e-11 * np.abs(u).max()
            if "w" in k.lower():
                at = (3e-5 * max(1, 1 / L) + nz[0]) * L
                mon.event("weights")
            mon.close(v, u, "operator_" + k, "operator built in the other way", rtol=1e-8, atol=at,
                      scheme=scheme, orders=orders, interval=tau, settings=seq)
    if len(out) == 3:
        for k in out[0]:
            mon.check(np.array_equal(out[0][k], out[2][k]), "history", "same setting, same operators",
                      operator=k, settings=seq)


def problem(mp, rng, mon, sut):
    s = gen.make_spec(rng, max_ph=2)
    orders = gen.make_grid(rng, max_seg=3, pmax=6)
    scheme = gen.SCHEMES[int(rng.integers(0, 3))]
    tau = [(-1, 1), (0, 1), (-2.0, 0.5)][int(rng.integers(0, 3))]
    kind = str(rng.choice(["mpopt", "h", "adaptive"]))
    m = ref.Mesh(scheme, orders, *tau)
    R = ref.RefNLP(s, m, "adaptive" if kind == "adaptive" else "mpopt")
    z = [R.random_z(rng) for _ in range(3)]
    w = gen.make_widths(rng, m.ns, s.nph)
    nodes = random_nodes(rng, type("S", (), dict(mesh=m, spec=s)), pmin=1, pmax=4, spread=True)
    CAP = sut.CAP

    def f():
        cls = dict(mpopt=mp.mpopt, h=mp.mpopt_h_adaptive, adaptive=mp.mpopt_adaptive)[kind]
        opt = cls(gen.build_ocp(mp, ca, s), m.ns, list(orders), scheme)
        CAP.reset("fake", responder=lambda a, b: z[0])
        kw = {}
        if kind == "mpopt":
            kw["mpopt_options"] = {"nlp_sw_params": w.ravel()}
        if kind == "h":
            kw["max_iter"] = 1
        sol = opt.solve(**kw)
        rec = CAP.solvers[-1]
        p = None if kind == "adaptive" else w.ravel()
        o = {"f": [], "g": []}
        for q in z:
            f_, g_ = rec.eval(q, p)
            o["f"].append(f_)
            o["g"].append(g_)
        o["bounds"] = np.concatenate([CAP.log[-1][1].inputs[k] for k in ("lbx", "ubx", "lbg", "ubg")])
        o["x0"] = CAP.log[-1][1].inputs["x0"]
        r = opt.get_dynamics_residuals(sol, nodes=nodes)[1]
        o["dyn"] = np.concatenate([np.ravel(arr(q)) for ph in r for q in ph])
        r = opt.get_states_residuals(sol, nodes=nodes)[3]
        o["st"] = np.concatenate([np.ravel(arr(q)) for ph in r for q in ph])
        post = opt.process_results(sol, plot=False, residual_dx=False)
        for nm, ip in (("orig", False), ("interp", True)):
            d = post.get_data(interpolate=ip)
            o[nm] = np.concatenate([np.ravel(arr(q)) for q in d])
        return o

    seq, out = both(mon, sut, mp, tau, rng, f)
    mon.event("nlps")
    mon.event("residual_sets")
    mon.event("post_data")
    mon.nontrivial(scheme, tau, orders, kind, s.describe())
    tol = 1e-9 + 3 * max(colloc.noise(q, 1) for q in m.x)
    for o in out[1:]:
        for k in out[0]:
            u, v = np.asarray(out[0][k]), np.asarray(o[k])
            mag = max(1.0, np.abs(u[np.isfinite(u)]).max()) if u.size else 1.0
            t = tol if k != "f" else max(tol, 2e-4)
            if k == "st":
                t = max(t, 5e-4)
            mon.close(v, u, "nlp_" + k, "result built in the other way", rtol=1e-8,
                      atol=0 if k in ("bounds", "x0") else t * mag, settings=seq, optimizer=kind)
    if len(out) == 3:
        for k in out[0]:
            mon.check(np.array_equal(np.asarray(out[0][k]), np.asarray(out[2][k])), "history",
                      "same setting, same results", result=k, settings=seq)
