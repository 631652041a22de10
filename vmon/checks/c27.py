"""Returned trajectories against the original continuous problem"""
import numpy as np
from scipy.integrate import solve_ivp

from .. import gen, ref
from ..trans import PhaseRef, arr, case_list

import casadi as ca

PROPERTY = "C27"
RULE = ("random nonlinear multi-phase problems with path, terminal, slope and mid-point constraints "
        "and parameters, random meshes, widths, scalings, classes and solver options, solved with "
        "ipopt; the post-processed data of successful solves are judged in original units; "
        "non-trivial = distinct (problem, mesh, class).")
ASSUMPTIONS = ["runs the solver does not finish successfully are not judged",
               "the trajectory is integrated with scipy (DOP853); it is compared when the defect of "
               "the state polynomials between the nodes is small",
               "each segment but the first imposes the dynamics at all its nodes but the first"]
NEED = {"judged": 80, "simulated": 40, "multi_phase": 30, "path": 20, "terminal": 20, "slope": 10,
        "continuity": 5, "links": 30, "params": 20, "scaled": 30, "unequal_widths": 20,
        "kind_mpopt": 30, "kind_h": 8, "kind_adaptive": 8, "kind_ph": 5, "active_bounds": 20}
CASE_LIMIT = 300


class Squares(gen.Expr):
    """Expr plus weighted squares of the first arguments"""

    def __init__(self, rng, n, k):
        super().__init__(rng, n, mag=0.5)
        self.sq = np.round(rng.uniform(0.5, 2, k), 3)

    def __call__(self, v, sin):
        return super().__call__(v, sin) + sum(float(q) * v[i] ** 2 for i, q in enumerate(self.sq))

    def describe(self):
        return dict(super().describe(), sq=self.sq)


def cases(tier, seed):
    return case_list(tier, seed, salt=27, quick=600, thorough=8000)


def problem(rng):
    s = gen.make_spec(rng, max_ph=3, mag=0.6, path=0, term=0, const_dyn=False, long_times=0.0)
    nv, nt = s.nx + s.nu + 1 + s.na, 2 * s.nx + 2 + s.na
    for p in range(s.nph):
        s.run[p] = Squares(rng, nv, s.nx + s.nu)
        if s.mayer[p] is not None:
            s.mayer[p] = Squares(rng, nt, s.nx)
        # something drives every state
        for i in range(s.nx):
            e = s.dyn[p][i]
            e.lin[s.nx + i % s.nu] = float(np.round(rng.choice([-1, 1]) * rng.uniform(0.5, 1.5), 3))
            e.quad = [q for q in e.quad if q[0] >= s.nx or q[1] >= s.nx][:1]
        s.npath[p] = int(rng.integers(1, 3)) if rng.uniform() < 0.4 else 0
        s.path[p] = []
        for _ in range(s.npath[p]):
            e = gen.Expr(rng, nv, mag=0.6)
            at = lambda x, u, t: e(s.args(x, u, t, s.a0[p]), np.sin)
            e.c -= max(at(s.x00[0], s.u00[p], s.t00[p, 0]), at(s.xf0[p], s.uf0[p], s.tf0[p, 0])) + float(
                rng.uniform(0.05, 0.6))
            s.path[p].append(e)
        if rng.uniform() < 0.4:
            e = gen.Expr(rng, nt, mag=0.3, nl=False)
            e.lin[int(rng.integers(0, s.nx))] = 1.0
            s.nterm[p], s.term[p] = 1, [e]
    s.lbx, s.ubx = s.lbx - 2.5, s.ubx + 2.5
    s.lbdu, s.ubdu = s.lbdu * 3, s.ubdu * 3
    s.lba, s.uba = np.maximum(s.lba, -3), np.minimum(s.uba, 3)
    s.links = [(i, i + 1) for i in range(s.nph - 1)]
    s.lbt0[0] = s.ubt0[0] = s.t00[0]
    # durations stay positive
    half = 0.35 * (s.tf0 - s.t00)
    s.ubt0, s.lbtf = np.minimum(s.ubt0, s.t00 + half), np.maximum(s.lbtf, s.tf0 - half)
    s.ubtf = np.minimum(s.ubtf, s.tf0 + 0.4)
    if s.nph > 1:
        s.lbt0[1:] = np.maximum(s.lbt0[1:], s.t00[1:] - half[:-1])
        s.ubtf[:-1] = np.minimum(s.ubtf[:-1], s.tf0[:-1] + half[1:])
    return s


def run(case, mon):
    from .. import sut

    mp, CAP = sut.mp, sut.CAP
    rng = np.random.default_rng(case["seed"])
    tau = [(-1, 1), (-1, 1), (0, 1)][int(rng.integers(0, 3))]
    dmat = "numerical" if rng.uniform() < 0.6 else "symbolic"
    sut.reset(tau, dmat)
    s = problem(rng)
    scheme = str(rng.choice(["LGR", "LGR", "LGL", "CGL"]))
    ns = int(rng.integers(1, 5))
    orders = [int(v) for v in rng.integers(4, 8, ns)]
    kind = str(rng.choice(["mpopt", "mpopt", "h", "adaptive", "ph", "solve"]))
    opts = {"ipopt.max_iter": 300, "ipopt.tol": 1e-8, "ipopt.print_level": 0, "print_time": 0,
            "ipopt.sb": "yes", "ipopt.acceptable_tol": 1e-7, "ipopt.constr_viol_tol": 1e-7,
            "ipopt.max_cpu_time": 20.0, "ipopt.bound_relax_factor": 0.0}
    CAP.reset("real")
    kw = dict(nlp_solver_options=opts)
    widths = None
    ctx = dict(kind=kind, scheme=scheme, orders=orders, interval=tau, method=dmat)
    with mon.sut("solving"):
        ocp = gen.build_ocp(mp, ca, s)
        ocp.validate()
        if kind == "solve":
            o, post = mp.solve(ocp, n_segments=ns, poly_orders=list(orders), scheme=scheme, plot=False,
                               solve_dict=kw)
            sol = CAP.log[-1][1].result
        else:
            cls = dict(mpopt=mp.mpopt, h=mp.mpopt_h_adaptive, adaptive=mp.mpopt_adaptive,
                       ph=mp.mpopt_ph_adaptive)[kind]
            o = cls(ocp, ns, list(orders), scheme)
            post = None
            if kind in ("mpopt", "ph"):
                if rng.uniform() < 0.6:
                    widths = gen.make_widths(rng, ns, s.nph, floor=0.4)
                    kw["mpopt_options"] = {"nlp_sw_params": widths.ravel()}
                sol = o.solve(**kw)
            elif kind == "h":
                m = [{}, {"method": "control_slope"}, {"method": "residual", "sub_method": "equal_area"},
                     {"method": "residual", "sub_method": "merge_split"}][int(rng.integers(0, 4))]
                sol = o.solve(max_iter=int(rng.integers(1, 4)), mpopt_options=m, **kw)
            else:
                o.lbh, o.ubh = [0.5 / ns] * s.nph, [2 / ns if ns > 1 else 1.0] * s.nph
                sol = o.solve(**kw)
    st = CAP.solvers[-1].stats()
    if st.get("return_status") != "Solve_Succeeded":
        mon.event("unsolved")
        mon.event("unsolved_" + str(st.get("return_status")))
        return
    if post is None:
        with mon.sut("processing a solution"):
            post = o.process_results(sol, plot=False)
    mon.event("judged")
    mon.event("kind_" + kind)
    mon.event("scheme_" + scheme)
    mon.event("multi_phase", s.nph > 1)
    mon.event("params", s.na > 0)
    mon.event("scaled", bool(np.any(s.scale_x != 1)))
    mon.event("unequal_widths", widths is not None)
    mon.nontrivial(kind, scheme, orders, s.describe())
    mon.sample(problem=s.describe(), **ctx)
    m = ref.Mesh(scheme, orders, *tau)
    # the widths of the last solve
    if kind == "adaptive":
        W = [T.wd for T in ref.RefNLP(s, m, "adaptive").decode(np.ravel(arr(sol["x"])))]
    else:
        W = CAP.log[-1][1].inputs["p"].reshape(s.nph, ns)
    with mon.sut("data of the solution"):
        D = [[arr(v) for v in post.get_data(phases=[p], interpolate=False)[:4]] for p in range(s.nph)]
    J = mag = 0.0
    TR = []
    for p, (x, u, t, a) in enumerate(D):
        c = dict(ctx, phase=p)
        t = np.ravel(t)
        a = np.ravel(a)[:s.na] if s.na else np.zeros(0)
        if not mon.check(x.shape == (m.N, s.nx) and u.shape == (m.N, s.nu) and t.shape == (m.N,),
                         "shape", "one row per node", x=x.shape, u=u.shape, t=t.shape, **c):
            return
        T = ref.Traj(x, u, t[0], t[-1], a, np.asarray(W[p], float))
        TR.append(T)
        q = PhaseRef(m, T)
        mon.close(t, q.t, "times", "times of the nodes", rtol=1e-7, atol=1e-7, **c)
        sx, su = 1 / s.scale_x, 1 / s.scale_u
        if p == 0:
            mon.close(x[0], s.x00[0], "initial", "initial state", rtol=1e-6, atol=1e-6 * sx.max(), **c)
        inside(mon, x if p else x[1:], s.lbx[p], s.ubx[p], 1e-6 * sx, "bound_x", "state bounds", c)
        inside(mon, u, s.lbu[p], s.ubu[p], 1e-6 * su, "bound_u", "control bounds", c)
        inside(mon, t[0], s.lbt0[p, 0], s.ubt0[p, 0], 1e-6 / s.scale_t, "bound_t", "start time bounds", c)
        inside(mon, t[-1], s.lbtf[p, 0], s.ubtf[p, 0], 1e-6 / s.scale_t, "bound_t", "final time bounds", c)
        if s.na:
            inside(mon, a, s.lba[p], s.uba[p], 1e-6 / s.scale_a, "bound_a", "parameter bounds", c)
        near = np.minimum(np.abs(u - s.lbu[p]), np.abs(s.ubu[p] - u)).min() < 1e-3
        mon.event("active_bounds", near)
        if s.npath[p]:
            mon.event("path")
            v = np.array([[e(s.args(x[k], u[k], t[k], a), np.sin) for e in s.path[p]] for k in range(m.N)])
            inside(mon, v, -np.inf, 0.0, 1e-6, "path", "path constraints", c)
            mon.event("active_path", np.abs(v).min() < 1e-3)
        if s.nterm[p]:
            mon.event("terminal")
            v = [e(s.targs(x[-1], t[-1], x[0], t[0], a), np.sin) for e in s.term[p]]
            mon.close(v, np.zeros(len(v)), "terminal", "terminal constraints", rtol=0, atol=1e-6, **c)
        # dynamics at the nodes
        f = dyn(s, p, a)
        fine = True
        smax = 1.0
        for i in range(ns):
            sl = m.seg(i)
            h = q.b[i + 1] - q.b[i]
            dX = m.D[i] @ x[sl] * m.len / h
            F = np.array([f(t[k], x[k], u[k]) for k in range(*sl.indices(m.N))])
            r = (dX - F) if i == 0 else (dX - F)[1:]
            smax = max(smax, np.abs(F).max())
            mon.event("nodes", len(r))
            noise = 1e-6 * sx.max() * m.len / h + 1e-9 * np.abs(dX).max()
            mon.close(r, np.zeros(r.shape), "dynamics", "dynamics at the nodes", rtol=0,
                      atol=noise + 1e-6, seg=i, **c)
            # between the nodes
            g = np.linspace(m.tau0, m.tau1, 41)
            I = ref.interp(m.x[i], g)
            Xi, Ui = I @ x[sl], I @ u[sl]
            dXi = I @ dX
            ti = q.time(i, g)
            d = np.abs(dXi - np.array([f(*v) for v in zip(ti, Xi, Ui)])).max()
            fine &= d < 2e-3 * smax
            if s.diff_u[p]:
                mon.event("slope")
                dU = m.D[i] @ u[sl] * m.len / h
                inside(mon, dU if i == 0 else dU[1:], s.lbdu[p], s.ubdu[p],
                       1e-5 * su.max() * m.len / h * 10, "slope", "slope bounds", c)
            if s.midu[p] or kind == "adaptive":
                mon.event("midu")
                inside(mon, ref.interp(m.x[i], m.mid[i]) @ u[sl], s.lbu[p], s.ubu[p], 1e-6 * su,
                       "midu", "control bounds at mid points", c)
            if s.run[p] is not None:
                v = [s.run[p](s.args(x[k], u[k], t[k], a), np.sin) for k in range(*sl.indices(m.N))]
                J += h / m.len * float(m.w[i] @ np.array(v))
                mag += abs(h) * np.abs(v).max()
        if s.du_continuity[p] and ns > 1:
            mon.event("continuity")
            for i in range(ns - 1):
                e = (m.D[i] @ u[m.seg(i)])[-1] * m.len / (q.b[i + 1] - q.b[i])
                b = (m.D[i + 1] @ u[m.seg(i + 1)])[0] * m.len / (q.b[i + 2] - q.b[i + 1])
                mon.close(e, b, "continuity", "slope across a segment boundary", rtol=1e-5,
                          atol=1e-4 * su.max(), seg=i, **c)
        if s.mayer[p] is not None:
            J += s.mayer[p](s.targs(x[-1], t[-1], x[0], t[0], a), np.sin)
        if fine:
            simulate(mon, s, p, m, q, f, c)
        else:
            mon.event("coarse_phases")
    for k in range(s.nph - 1):
        mon.event("links")
        A, B = TR[k], TR[k + 1]
        c = dict(ctx, link=k)
        inside(mon, B.X[0] - A.X[-1], s.lbe[k], s.ube[k], 1e-6 / s.scale_x, "link_x", "state jump", c)
        mon.close(B.U[0], A.U[-1], "link_u", "controls are continuous", rtol=0, atol=1e-6 * su.max() + 1e-6, **c)
        mon.close(B.t0, A.tf, "link_t", "times are continuous", rtol=0, atol=1e-6 / s.scale_t + 1e-7, **c)
    tolq = 2e-5 if dmat == "symbolic" else 1e-6
    mon.close(float(np.ravel(arr(sol["f"]))[0]), J, "cost", "cost of the returned trajectory", rtol=tolq * 5,
              atol=tolq * 20 * max(1.0, abs(J), mag), **ctx)


def dyn(s, p, a):
    return lambda t, x, u: np.array([e(s.args(x, u, t, a), np.sin) for e in s.dyn[p]], float)


def inside(mon, v, lo, hi, tol, key, msg, ctx):
    v = np.asarray(v, float)
    bad = np.maximum(np.asarray(lo) - v, v - np.asarray(hi)) - tol
    mon.check(np.all(np.isfinite(v)) and bad.max() <= 0, key, msg + " hold", value=v, lb=lo, ub=hi,
              by=float(bad.max()), **ctx)


def simulate(mon, s, p, m, q, f, ctx):
    T = q.T
    x = T.X[0].copy()
    for i in range(m.ns):
        sl = m.seg(i)
        bw = ref.bary(m.x[i])
        U = T.U[sl]

        def u_at(t):
            return ref.interp(m.x[i], np.atleast_1d(q.tau(i, t)))[0] @ U

        te = T_nodes = q.t[sl]
        sol = solve_ivp(lambda t, y: f(t, y, u_at(t)), (te[0], te[-1]), x, method="DOP853", rtol=1e-8,
                        atol=1e-9, t_eval=np.clip(te, te[0], te[-1]))
        if not sol.success:
            mon.event("not_integrated")
            return
        mon.event("simulated_segments")
        scale = max(1.0, np.abs(T.X).max())
        mon.close(sol.y.T, T.X[sl], "simulation", "integrating the dynamics gives the returned states",
                  rtol=0, atol=6e-3 * scale, seg=i, **ctx)
        x = sol.y[:, -1]
    mon.event("simulated")
