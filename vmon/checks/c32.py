"""The ph-adaptive refinement loop"""
import types

import casadi as ca
import numpy as np

from .. import gen, ref
from ..trans import PhaseRef, arr, case_list
from .c30 import Problem

PROPERTY = "C32"
RULE = ("solver-call traces of solve_ph for scripted answers (an exact trajectory with errors "
        "planted in random phases and segments, shrinking or not; random vectors), limits on "
        "degrees and segments, tolerances, evaluation grids, schemes, phases and given widths, "
        "and a few solves with the real solver; mesh, degrees and widths are read at every solver "
        "call; non-trivial = distinct (problem, script, limits).")
ASSUMPTIONS = ["one refinement = a solve on the current mesh and one with raised degrees",
               "errors are relative state residuals (C17) on the optimizer's grid, computed by a "
               "separate optimizer object"]
NEED = {"solves": 120, "calls": 300, "stop_tol": 20, "stop_limit": 20, "splits": 10, "raised": 40,
        "multi_phase": 40, "degree_limit": 10, "segment_limit": 5, "real": 2, "posts": 150, "again": 30, "plain_first": 30, "empty_segments": 5,
        "initial_solution": 20, "exceeded_limits": 8}
CASE_LIMIT = 300


def cases(tier, seed):
    return case_list(tier, seed, salt=32, quick=200, thorough=4000)


def run(case, mon):
    from .. import sut

    mp, CAP = sut.mp, sut.CAP
    rng = np.random.default_rng(case["seed"])
    tau = [(-1, 1), (0, 1)][int(rng.integers(0, 2))]
    symbolic = rng.uniform() < 0.15
    sut.reset(tau, "symbolic" if symbolic else "numerical")
    P = Problem(rng)
    P.path, P.path_max, P.term = [], [], False
    big = np.random.default_rng([case["seed"], 33])
    nph = int(rng.integers(1, 4))
    if big.uniform() < 0.1:
        nph = int(big.integers(4, 7))
        mon.event("many_phases")
    cuts = np.concatenate([[P.t0], np.sort(P.t0 + (P.tf - P.t0) * (
        np.arange(1, nph) + rng.uniform(-0.3, 0.3, nph - 1)) / nph), [P.tf]])
    scheme = gen.SCHEMES[int(rng.integers(0, 3))]
    ns = int(rng.integers(1, 4))
    if big.uniform() < 0.1:
        ns = int(big.integers(4, 8))
        mon.event("many_segments")
    low = np.random.default_rng([case["seed"], 32]).uniform() < 0.2  # not only degrees that fit the answers
    orders = [int(v) for v in rng.integers(1 if low else max(P.d, 2), 5, ns)]
    mon.event("low_degrees", low)
    kw = dict(grid_type=str(rng.choice(["spectral", "spectral", "mid-points", "fixed"])),
              n_grid_points=int(rng.integers(4, 9)),
              max_residual=float(10.0 ** rng.uniform(-5, -2)),
              poly_order_min=int(rng.integers(1, 4)), poly_order_max=int(rng.integers(6, 12)),
              seg_min=1, seg_max=int(rng.integers(ns, ns + 4)),
              non_smooth_threshold=float(rng.choice([0.5, 1.05, 2.0])))
    if symbolic:
        kw["poly_order_max"] = 7
    elif rng.uniform() < 0.3:
        kw["n_grid_points"] = 20
    if not symbolic and big.uniform() < 0.15:
        # limits that the initial mesh exceeds
        mon.event("exceeded_limits")
        kw["poly_order_max"] = int(big.integers(2, max(max(orders), 2) + 1))
        kw["seg_max"] = int(big.integers(1, ns + 1))
    thin = ns > 1 and rng.uniform() < 0.15
    if thin:
        kw["grid_type"] = "fixed"
    real = rng.uniform() < 0.05
    with mon.sut("building mpopt_ph_adaptive"):
        o = mp.mpopt_ph_adaptive(P.ocp(mp, cuts), ns, list(orders), scheme, **kw)
    lim = (min(kw["poly_order_min"], min(orders)), max(kw["poly_order_max"], max(orders)),
           max(kw["seg_max"], ns))
    script = str(rng.choice(["decay", "constant", "exact", "random", "one_phase"],
                            p=[0.35, 0.2, 0.05, 0.1, 0.3]))
    sp = P.spec(cuts)
    trace = []
    bad_ph = int(rng.integers(0, nph))
    bad_seg = float(rng.uniform())
    e0 = kw["max_residual"] * 10.0 ** rng.uniform(0.5, 4)
    rate = float(rng.choice([0.02, 0.2, 0.5]))

    def respond(solver, call):
        k = len(trace)
        po = [int(v) for v in np.ravel(o.poly_orders)]
        m = ref.Mesh(scheme, po, *tau)
        R = ref.RefNLP(sp, m)
        rec = dict(orders=po, ns=int(o.n_segments), p=call.inputs.get("p"), nx=solver.nx, call=call,
                   nz=R.nz, mesh=m, R=R, x0=call.inputs["x0"].size,
                   bounds=[call.inputs[q].size for q in ("lbx", "ubx", "lbg", "ubg")],
                   ng=solver.nlp["g"].numel())
        trace.append(rec)
        if solver.nx != R.nz or rec["p"] is None or rec["p"].size != m.ns * nph:
            rec["x"] = np.zeros(solver.nx)
            return rec["x"]
        w = rec["p"].reshape(nph, m.ns)
        rec["w"] = w
        tr = []
        for p in range(nph):
            t = m.times(cuts[p], cuts[p + 1], w[p])
            X, U = P.X(t), P.U(t)
            amp = 0.0
            if script == "decay":
                amp = e0 * rate ** k
            elif script == "constant":
                amp = e0
            elif script == "one_phase":
                amp = e0 * (rate ** (0.5 * k)) * (p == bad_ph)
            elif script == "random":
                X, U = rng.uniform(-1, 1, X.shape), rng.uniform(-1, 1, U.shape)
            if amp:
                f = (t - t[0]) / (t[-1] - t[0])
                X = X + amp * np.maximum(0, 1 - np.abs(f - bad_seg) * 4)[:, None] * rng.uniform(
                    0.5, 1, X.shape[1])
            tr.append(ref.Traj(X, U, cuts[p], cuts[p + 1], P.A, w[p]))
        rec["x"] = R.encode(tr)
        return rec["x"]

    for turn in range(2 if rng.uniform() < 0.35 else 1):
        M = int(rng.integers(1, 5))
        sd = {}
        w0 = np.full((nph, ns), 1.0 / ns)
        if thin or rng.uniform() < 0.25:
            w0 = gen.make_widths(rng, ns, nph)
            if thin:  # a segment without points of the evaluation grid
                w0[int(rng.integers(0, nph)), int(rng.integers(0, ns))] *= 1e-3
                w0 /= w0.sum(axis=1, keepdims=True)
            sd["mpopt_options"] = {"nlp_sw_params": w0.ravel() if rng.uniform() < 0.5 else w0.ravel().tolist()}
        if rng.uniform() < 0.3:
            sd["nlp_solver_options"] = {"ipopt.max_iter": 300}
        z0 = None
        if big.uniform() < 0.25:
            # a starting point on the initial mesh
            mon.event("initial_solution")
            z0 = big.uniform(-1, 1, ref.RefNLP(sp, ref.Mesh(scheme, orders, *tau)).nz)
            sd["initial_solution"] = {"x" if big.uniform() < 0.5 else "x0": z0.copy()}
            if big.uniform() < 0.5:
                sd["initial_solution"]["lam_x"] = big.uniform(-1, 1, z0.size)
        if turn:
            mon.event("again")
        mon.nontrivial(scheme, orders, nph, kw, script, M)
        mon.sample(scheme=scheme, orders=orders, phases=nph, options=kw, script=script, max_iter=M)
        mon.event("multi_phase", nph > 1)
        keep = repr(sd)
        if real:
            return real_solve(mp, CAP, mon, rng, scheme, kw, lim)
        if turn == 0 and rng.uniform() < 0.3:
            # a plain solve whose results are looked at before the refinement
            CAP.reset("fake", responder=respond)
            with mon.sut("solve"):
                sol = o.solve(**({"mpopt_options": sd["mpopt_options"]} if "mpopt_options" in sd else {}))
            if len(trace) == 1 and "w" in trace[0]:
                post(mon, o, sol, trace[0], sp, nph)
                mon.event("plain_first")
            trace.clear()
        CAP.reset("fake", responder=respond, max_calls=2 * M + 4)
        with mon.sut("solve_ph"):
            sol = o.solve_ph(max_iter=M, **({"solve_dict": sd} if sd else {}))
        CAP.max_calls = None
        mon.event("solves")
        n = len(trace)
        mon.event("calls", n)
        mon.check(repr(sd) == keep, "solve_dict_changed", "the caller's options are not changed",
                  before=keep, after=repr(sd))
        if not mon.check(1 <= n <= 2 * M, "limit", "number of solves within the limit", calls=n, max_iter=M):
            return
        if z0 is not None:
            got = np.ravel(trace[0]["call"].inputs["x0"])
            mon.check(got.shape == z0.shape and np.array_equal(got, z0), "initial_solution",
                      "the first solve starts from the given point", got=got[:5], given=z0[:5])
        for k, r in enumerate(trace):
            ctx = dict(call=k, orders=r["orders"], n_segments=r["ns"], limits=lim)
            ok = mon.check(r["ns"] == len(r["orders"]), "mesh", "one degree per segment", **ctx)
            ok &= mon.check(all(lim[0] <= q <= lim[1] for q in r["orders"]), "degrees",
                            "degrees within their limits", **ctx)
            ok &= mon.check(r["ns"] <= lim[2], "segments", "number of segments within its limit", **ctx)
            ok &= mon.check(r["nx"] == r["nz"] == r["x0"], "variables", "NLP is of the size of the mesh",
                            got=r["nx"], want=r["nz"], x0=r["x0"], **ctx)
            ok &= mon.check(r["bounds"] == [r["nx"], r["nx"], r["ng"], r["ng"]], "bounds",
                            "bounds fit the NLP", got=r["bounds"], **ctx)
            ok &= mon.check("w" in r, "widths_size", "one width per segment and phase", **ctx)
            if not ok:
                return
            mon.check(np.all(r["w"] > 0) and np.allclose(r["w"].sum(axis=1), 1, rtol=0, atol=1e-9),
                      "widths", "positive widths summing to one in each phase", w=r["w"], **ctx)
        mon.close(trace[0]["w"], w0, "first_widths", "first solve on the given widths", rtol=1e-12, atol=1e-12)
        mon.check(trace[0]["orders"] == orders, "first_mesh", "first solve on the given mesh")
        mon.close(np.ravel(arr(sol["x"])), trace[-1]["x"], "result", "solution of the last solve", rtol=0,
                  atol=0)
        # ---- errors of every answer, from separate objects
        E = []
        for r in trace:
            E.append(errors(mp, CAP, mon, P, cuts, scheme, kw, r))
        tol = kw["max_residual"]
        amb = [any(abs(e / tol - 1) < 1e-4 for ph in Ek for e in ph) for Ek in E]
        good = [all(e <= tol for ph in Ek for e in ph) for Ek in E]
        for k in range(n - 1):
            if not amb[k]:
                mon.check(not good[k], "late", "stops once every phase is within tolerance", call=k,
                          errors=E[k], tol=tol)
        if not amb[-1]:
            if good[-1]:
                mon.event("stop_tol")
            else:
                mon.event("stop_limit")
                mon.check(n == 2 * M, "early", "goes on until every phase is within tolerance", calls=n,
                          max_iter=M, errors=E[-1], tol=tol, orders=trace[-1]["orders"])
        # ---- what a refinement does to the mesh
        for k in range(n - 1):
            a, b = trace[k], trace[k + 1]
            if amb[k]:
                continue
            bad = [any(E[k][p][i] > tol for p in range(nph)) for i in range(a["ns"])]
            if k % 2 == 0:
                if not mon.check(a["ns"] == b["ns"], "raise_segments", "degrees are raised on the same segments"):
                    continue
                mon.close(b["w"], a["w"], "raise_widths", "same widths when degrees are raised", rtol=0, atol=1e-12)
                for i in range(a["ns"]):
                    if bad[i]:
                        mon.event("raised")
                        up = b["orders"][i] > a["orders"][i] or b["orders"][i] == lim[1]
                        mon.event("degree_limit", b["orders"][i] == lim[1])
                        mon.check(up, "raise", "degree of a segment above tolerance is raised", seg=i,
                                  before=a["orders"], after=b["orders"], errors=E[k], tol=tol)
                    else:
                        mon.check(b["orders"][i] == max(a["orders"][i], lim[0]), "raise_other",
                                  "degree of a segment within tolerance is kept", seg=i,
                                  before=a["orders"], after=b["orders"], errors=E[k], tol=tol)
            else:
                # every old segment is kept or divided
                ok = True
                for p in range(nph):
                    ca_, cb = np.cumsum(a["w"][p]), np.cumsum(b["w"][p])
                    for i in range(a["ns"]):
                        ok &= mon.check(np.abs(cb - ca_[i]).min() < 1e-9, "boundary",
                                        "segment boundaries stay when segments are divided", phase=p,
                                        before=a["w"][p], after=b["w"][p])
                if not ok:
                    continue
                p = 0
                ca_ = np.concatenate([[0], np.cumsum(a["w"][p])])
                mid = np.cumsum(b["w"][p]) - 0.5 * b["w"][p]
                own = np.searchsorted(ca_[1:-1], mid)
                for i in range(a["ns"]):
                    j = np.flatnonzero(own == i)
                    mon.check(all(b["orders"][q] == a["orders"][i] for q in j), "split_degree",
                              "parts of a segment keep its degree", before=a["orders"], after=b["orders"])
                    for ph in range(nph):
                        mon.check(np.ptp(b["w"][ph][j]) < 1e-12, "split_equal", "equal parts")
                        mon.close(b["w"][ph][j].sum(), a["w"][ph][i], "split_sum", "parts make up the segment",
                                  rtol=0, atol=1e-10, phase=ph)
                    if len(j) > 1:
                        mon.event("splits")
                        mon.check(bad[i], "split_other", "only segments above tolerance are divided", seg=i,
                                  errors=E[k], tol=tol)
                mon.event("segment_limit", b["ns"] == lim[2])
        post(mon, o, sol, trace[-1], sp, nph)
        # once more, from the mesh it ended with
        orders, ns, thin = list(trace[-1]["orders"]), trace[-1]["ns"], False
        trace.clear()


def errors(mp, CAP, mon, P, cuts, scheme, kw, r):
    """[phase][segment] largest relative state residual"""
    with mon.sut("residuals of an answer"):
        h = mp.mpopt_ph_adaptive(P.ocp(mp, cuts), r["ns"], list(r["orders"]), scheme, **kw)
        CAP.mode, CAP.responder = "fake", (lambda a, b: r["x"])
        s = h.solve(mpopt_options={"nlp_sw_params": r["w"].ravel()})
        res = h.get_states_residuals(s, residual_type="relative")[3]
    mon.event("empty_segments", any(v is None or np.size(v) == 0 for ph in res for v in ph))
    return [[float(np.abs(arr(v)).max()) if v is not None and np.size(v) else 0.0 for v in ph]
            for ph in res]


def post(mon, o, sol, r, sp, nph):
    ph = list(range(nph))
    with mon.sut("process_results"):
        q = o.process_results(sol, plot=False)
        x, u, t = [arr(v) for v in q.get_original_data(phases=ph)[:3]]
        xi, ui, ti = [arr(v) for v in q.get_data(phases=ph, interpolate=True)[:3]]
    mon.event("posts")
    m = r["mesh"]
    TR = r["R"].decode(r["x"], r["w"])
    Q = [PhaseRef(m, T) for T in TR]
    mon.close(np.ravel(t), np.concatenate([q.t for q in Q]), "post_t",
              "times on the mesh the optimizer keeps", rtol=1e-9, atol=1e-9)
    mon.close(x, np.vstack([T.X for T in TR]), "post_x", "states", rtol=1e-8, atol=1e-8)
    mon.close(u, np.vstack([T.U for T in TR]), "post_u", "controls", rtol=1e-8, atol=1e-8)
    # interpolated data lies on the polynomials of this mesh
    ti = np.ravel(ti)
    bad = 0
    for k, tk in enumerate(ti):
        err = []
        for q in Q:
            for i in range(m.ns):
                tau = float(q.tau(i, np.array([tk]))[0])
                if m.tau0 - 1e-6 * m.len <= tau <= m.tau1 + 1e-6 * m.len:
                    z = q.val(i, np.array([tau]), "X")[0]
                    err.append(np.abs(xi[k] - z).max() / (1e-6 * (1 + np.abs(z).max() + q.mag(i, "X"))))
        bad += not err or min(err) > 1
    mon.check(bad == 0, "post_interpolated", "interpolated states lie on the segments' polynomials",
              bad=bad, n=len(ti), orders=r["orders"])


def real_solve(mp, CAP, mon, rng, scheme, kw, lim):
    """With the real solver: double integrator with a control that switches"""
    mon.event("real")
    CAP.reset("real")
    ocp = mp.OCP(n_states=2, n_controls=1)
    ocp.dynamics[0] = lambda x, u, t: [x[1], u[0] - 1.5]
    ocp.running_costs[0] = lambda x, u, t: u[0]
    ocp.terminal_constraints[0] = lambda xf, tf, x0, t0: [xf[0], xf[1]]
    ocp.x00[0], ocp.lbu[0], ocp.ubu[0] = [10, -2], 0, 3
    ocp.lbtf[0], ocp.ubtf[0] = 3, 5
    M = int(rng.integers(1, 4))
    seen = []
    kw = dict(kw)
    ns, po = 2, [4, 4]
    lim = (min(kw["poly_order_min"], 4), max(kw["poly_order_max"], 4), max(kw["seg_max"], ns))
    with mon.sut("solve_ph with ipopt"):
        o = mp.mpopt_ph_adaptive(ocp, ns, po, scheme, **kw)
        sol = o.solve_ph(max_iter=M)
        q = o.process_results(sol, plot=False)
        x, u, t = [arr(v) for v in q.get_original_data()[:3]]
    n = len(CAP.log)
    mon.check(1 <= n <= 2 * M, "real_limit", "number of solves", calls=n, max_iter=M)
    po = [int(v) for v in np.ravel(o.poly_orders)]
    mon.check(len(po) == o.n_segments and o.n_segments <= lim[2] and all(
        lim[0] <= v <= lim[1] for v in po), "real_mesh", "mesh within its limits", orders=po, lim=lim)
    mon.check(len(x) == sum(po) + 1 and len(t) == len(x), "real_data", "data on the final mesh")
    f = float(arr(sol["f"]).ravel()[0])
    mon.check(abs(f - 8.2462) < 0.35, "real_cost", "cost of the moon lander", got=f)
