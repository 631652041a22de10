"""Scaling invariance"""
import copy

import casadi as ca
import numpy as np

from .. import gen, ref
from ..trans import Setup, case_list

PROPERTY = "C10"
RULE = ("two transcriptions of one random problem, with random scale factors and without, "
        "evaluated at corresponding random decision vectors: equal objective, one-to-one "
        "proportional constraint rows with the same feasible set, corresponding variable bounds, "
        "starting points and post-processed data; non-trivial = distinct (problem, mesh, scales).")
ASSUMPTIONS = ["decision vector order X, U, t0, tf, a, widths (documented)",
               "rows of the two NLPs are paired in order"]
NEED = {"pairs": 100, "rows": 3000, "multi_phase": 20, "kind_adaptive": 10}


def cases(tier, seed):
    return case_list(tier, seed, salt=10, quick=600)


def run(case, mon):
    s = Setup(case, mon, spec_opts=dict(scaling=True), respond="random", warm=False, use_widths=True)
    rng, m, sp = s.rng, s.mesh, s.spec
    one = copy.copy(sp)
    one.scale_x, one.scale_u, one.scale_a = np.ones(sp.nx), np.ones(sp.nu), np.ones(sp.na)
    one.scale_t = 1.0
    R1 = ref.RefNLP(one, m, s.ref.kind)
    with mon.sut("transcribing the unscaled problem"):
        ocp = gen.build_ocp(s.mp, ca, one)
        opt = type(s.opt)(ocp, m.ns, s.orders, s.scheme)
        if s.kind == "adaptive":
            opt.tol_residual, opt.lbh, opt.ubh = list(s.opt.tol_residual), list(s.opt.lbh), list(s.opt.ubh)
            opt.mid_residuals = s.opt.mid_residuals
        z0 = R1.encode(s.trajs())
        s.CAP.responder = lambda solver, call: z0
        kw = {}
        if s.kind == "mpopt":
            kw["mpopt_options"] = {"nlp_sw_params": np.ravel(s.widths)}
        if s.kind == "h":
            kw["max_iter"] = 1
        sol1 = opt.solve(**kw)
    rec1 = s.CAP.solvers[-1]
    c0, c1 = s.call, rec1.calls[-1]
    mon.event("pairs")
    if not mon.check(rec1.nx == s.rec.nx, "size", "same number of variables"):
        return
    # objective and constraints
    G0, G1 = [], []
    for _ in range(4):
        z = s.ref.random_z(rng)
        w = gen.make_widths(rng, m.ns, sp.nph)
        zu = R1.encode(s.ref.decode(z, w))
        f0, g0 = s.rec.eval(z, s.p(w))
        f1, g1 = rec1.eval(zu, s.p(w))
        _, mag = s.ref.objective(z, w)
        mon.close(f0, f1, "objective", "objective does not depend on the scaling", rtol=0,
                  atol=1e-8 * (mag + 1e-3))
        G0.append(g0)
        G1.append(g1)
    if not mon.check(len(G0[0]) == len(G1[0]), "size", "same number of constraints"):
        return
    G0, G1 = np.stack(G0, 1), np.stack(G1, 1)
    mon.event("rows", len(G0))
    l0, u0, l1, u1 = c0.inputs["lbg"], c0.inputs["ubg"], c1.inputs["lbg"], c1.inputs["ubg"]
    n0, n1 = np.linalg.norm(G0, axis=1), np.linalg.norm(G1, axis=1)
    adaptive = s.kind == "adaptive"
    for k in range(len(G0)):
        if n1[k] < 1e-9 or n0[k] < 1e-9:
            mon.check(max(n0[k], n1[k]) < 1e-7, "row_zero", "rows vanish together", row=k,
                      scaled=G0[k], unscaled=G1[k])
            continue
        q = G0[k] @ G1[k] / (n1[k] ** 2)
        ok = q > 0 and np.abs(G0[k] - q * G1[k]).max() <= 1e-6 * n0[k]
        if not mon.check(ok, "row", "constraint row of the scaled problem is a positive multiple",
                         row=k, scaled=G0[k], unscaled=G1[k], kind=s.kind):
            continue
        if adaptive and np.isfinite(l1[k]) and np.isfinite(u1[k]) and l1[k] == -u1[k] != 0 \
                and any(abs(u1[k] - v) < 1e-15 for v in s.tol):
            continue  # residual tolerance is in scaled units by design
        for a, b, nm in ((l0[k], l1[k], "lower"), (u0[k], u1[k], "upper")):
            same = (np.isinf(a) and np.isinf(b) and a == b) or abs(a - q * b) <= 1e-7 * (
                abs(a) + abs(q * b)) + 1e-11
            mon.check(same, "row_bound", "%s bound follows the row" % nm, row=k, scaled=a,
                      unscaled=b, factor=q)
    # variables: bounds and starting point
    d = R1.encode(s.ref.decode(np.ones(s.ref.nz), np.ones((sp.nph, m.ns))))  # 1/scale per variable
    for k in ("lbx", "ubx", "x0"):
        a, b = c0.inputs[k] * d, c1.inputs[k]
        mon.close(a, b, "var_" + k, k + " corresponds", rtol=1e-9, atol=1e-10, kind=s.kind)
    # results in original units
    with mon.sut("post-processing"):
        p0 = s.opt.process_results(s.sol, plot=False, residual_dx=False)
        p1 = opt.process_results(sol1, plot=False, residual_dx=False)
    for ip in (False, True):
        a, b = p0.get_data(interpolate=ip), p1.get_data(interpolate=ip)
        for nm, x, y in zip("xuta", a, b):
            mon.close(x, y, "post_" + nm, "results do not depend on the scaling", rtol=1e-7,
                      atol=1e-8 * (1 + np.abs(y).max() if np.size(y) else 1), interpolated=ip)
