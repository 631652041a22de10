"""The refinement loop of the h-adaptive optimizer, driven by scripted solver answers"""
import casadi as ca
import numpy as np

from .. import gen
from ..trans import PhaseRef, Setup, arr, case_list

PROPERTY = "C22"
RULE = ("solver-call traces of the h-adaptive solve for scripted solver answers (random, frozen, "
        "shrinking residual, equal errors at changing places), tolerances, iteration limits, "
        "methods, initial solutions and repeated solves; non-trivial = distinct (problem, mesh, "
        "script, limits, options).")
ASSUMPTIONS = ["errors are the largest absolute dynamics residual on the default grid (C16), "
               "computed by a separate optimizer object",
               "stop rules: below tolerance, widths change by 5% or less, error within 5% of the "
               "mean of the last four after more than four solves"]
NEED = {"solves": 200, "calls": 500, "stop_tol": 10, "stop_width": 30, "stop_limit": 30,
        "stop_stagnation": 5, "initial_ok": 10, "warm_links": 200, "multi_phase": 20,
        "histories": 20}
CASE_LIMIT = 200


def cases(tier, seed):
    return case_list(tier, seed, salt=22, quick=500)


def ramp(s, seg, amp):
    """States that change in one segment only; times and controls small"""
    m, sp, rng = s.mesh, s.spec, s.rng
    tr = s.ref.decode(s.ref.random_z(rng), s.ref_w, True)
    for p, T in enumerate(tr):
        T.X[:] = 0
        g = m.seg(seg)
        x = m.x[seg]
        T.X[g, 0] = amp * (x - x[0]) / m.len
        T.X[g.stop:, 0] = amp
        T.U[:] = 0
    return s.ref.encode(tr)


def run(case, mon):
    s = Setup(case, mon, kinds=("h",), kind_p=(1.0,), spec_opts=dict(flags=False, max_ph=4 if case["seed"] % 7 == 0 else 2, mag=0.5),
              max_seg=7 if case["seed"] % 5 == 0 else 5, pmax=4, solve=False)
    rng, m, sp = s.rng, s.mesh, s.spec
    s.ref_w = np.full((sp.nph, m.ns), 1.0 / m.ns)
    s.grid = [str(rng.choice(["fixed", "mid-points", "spectral"])) for _ in range(sp.nph)] \
        if rng.uniform() < 0.3 else None
    with mon.sut("helper optimizer"):
        if s.grid:
            s.opt.grid_type = list(s.grid)
        s.helper = s.mp.mpopt(gen.build_ocp(s.mp, ca, sp), m.ns, list(s.orders), s.scheme)
        if s.grid:
            s.helper.grid_type = list(s.grid)
    prev = None
    for rep in range(2 if rng.uniform() < 0.45 else 1):
        prev = one(s, mon, prev)
        if prev is None:
            break


def error(s, mon, x, w):
    """Largest residual of solution x on widths w"""
    old = s.CAP.__dict__.copy()
    with mon.sut("residuals of a solution"):
        s.CAP.mode, s.CAP.responder, s.CAP.max_calls = "fake", (lambda a, b: x), None
        sol = s.helper.solve(mpopt_options={"nlp_sw_params": list(np.ravel(w))})
        _, res = s.helper.get_dynamics_residuals(sol)
    s.CAP.__dict__.update(old)
    return max([float(np.abs(arr(r)).max()) for ph in res for r in ph
                if r is not None and np.size(r)] + [0.0])


def one(s, mon, prev):
    rng, m, sp = s.rng, s.mesh, s.spec
    script = str(rng.choice(["random", "frozen", "shrink", "ramp"], p=[0.2, 0.15, 0.4, 0.25]))
    M = int(rng.choice([1, 2, 3, 6, 10, 12]))
    z0 = s.ref.random_z(rng)
    small = ramp(s, 0, 0.0)
    amp = 1e4 * max(1.0, sp.scale_x[0])
    seq = rng.permutation(m.ns)

    def respond(solver, call):
        k = len(trace)
        if script == "random":
            x = s.ref.random_z(rng)
        elif script == "frozen":
            x = z0.copy()
        elif script == "shrink":
            x = small + (s.ref.random_z(rng) - small) * 0.2 ** k
        else:
            x = ramp(s, int(seq[k % m.ns]), amp)
        trace.append((call, x))
        return x

    method = [{}, {"method": "residual", "sub_method": "equal_area"},
              {"method": "residual", "sub_method": "merge_split"}, {"method": "residual"},
              {"method": "control_slope"}, {"method": "?"}][int(rng.choice(
                  6, p=[0.2, 0.3, 0.25, 0.05, 0.15, 0.05]))]
    trace = []
    # tolerances around the error of a typical answer
    w0 = s.ref_w
    e0 = error(s, mon, small + 0.2 ** int(rng.integers(0, 4)) * (s.ref.random_z(rng) - small), w0)
    tol = [float(e0 * rng.choice([1e-6, 0.3, 1.0, 3.0], p=[0.4, 0.2, 0.2, 0.2]))
           for _ in range(sp.nph)]
    if rng.uniform() < 0.5:
        tol = [tol[0]] * sp.nph
    init = None
    kw = {}
    if prev is not None and rng.uniform() < 0.7:
        init = prev
        mon.event("histories")
    elif prev is None and rng.uniform() < 0.3:
        init = {"x": ca.DM(small if rng.uniform() < 0.5 else s.ref.random_z(rng))}
    if init is not None and rng.uniform() < 0.5:
        if rng.uniform() < 0.5:
            init = {str(rng.choice(["x", "x0"])): init["x"]}
        tol = [max(t, error(s, mon, np.ravel(arr(list(init.values())[0] if len(init) == 1 else init["x"])), s.ref_w) * 1.5) for t in tol]
    xi = None if init is None else np.ravel(arr(init["x" if "x" in init else "x0"]))
    s.opt.tol_residual = list(tol)
    with mon.sut("mpopt_h_adaptive.solve"):
        s.CAP.mode, s.CAP.responder = "fake", respond
        s.CAP.max_calls = s.CAP.n_calls + M + 3
        sol = s.opt.solve(initial_solution=init, max_iter=M, mpopt_options=dict(method))
    s.CAP.max_calls = None
    n = len(trace)
    mon.event("solves")
    mon.event("calls", n)
    mon.nontrivial(s.orders, s.scheme, script, M, method, tol, init is not None)
    tmin = min(tol)
    track = m.ns > 1 and method.get("method") != "?"
    if init is not None and track:
        # the widths in use before are the equal ones, or those of the previous solve
        e_init = error(s, mon, xi, s.ref_w)
        if abs(e_init / tmin - 1) < 1e-6:
            return None
        if e_init < tmin:
            mon.event("initial_ok")
            mon.check(n == 0, "initial_ok", "initial solution is within tolerance: no NLP solve",
                      calls=n)
            mon.check(sol is init or np.array_equal(np.ravel(arr(sol["x"])), xi), "initial_returned",
                      "initial solution is returned")
            post_times(s, mon, sol, s.ref_w)
            return sol
    if not mon.check(1 <= n <= M, "limit", "between one and max_iter NLP solves", calls=n, limit=M):
        return None
    P = [c.inputs["p"].reshape(sp.nph, m.ns) for c, _ in trace]
    X = [x for _, x in trace]
    E = [error(s, mon, x, p) if track else None for x, p in zip(X, P)]
    # ---- what each call was given
    for k, (c, _) in enumerate(trace):
        i = c.inputs
        mon.check(np.all(P[k] > 0) and np.allclose(P[k].sum(axis=1), 1, atol=1e-9), "widths",
                  "valid widths reach the solver", call=k, p=P[k])
        if k == 0:
            if init is None:
                mon.close(P[0], np.full_like(P[0], 1.0 / m.ns), "first_widths",
                          "equal widths at first", rtol=0, atol=1e-12)
                g = s.ref.guess()
                mon.close(i["x0"], g, "first_x0", "initial guess", rtol=1e-9, atol=1e-9)
            else:
                mon.close(i["x0"], xi, "first_x0", "initial solution is used",
                          rtol=0, atol=0)
        else:
            r = trace[k - 1][0].result
            mon.event("warm_links")
            mon.close(i["x0"], np.ravel(arr(r["x"])), "warm_x", "warm start with the last solution",
                      rtol=0, atol=0, call=k)
            for a, b in (("lam_x0", "lam_x"), ("lam_g0", "lam_g")):
                mon.close(i.get(a), np.ravel(arr(r[b])), "warm_" + b, "warm start multipliers",
                          rtol=0, atol=0, call=k)
    # ---- stop rules
    close5 = lambda a, b: bool(np.all(np.abs(b - a) / b <= 0.05))
    near = lambda a, b: bool(np.any(np.abs(np.abs(b - a) / b - 0.05) < 1e-9))

    def stagnant(k):  # after k solves
        if not track or k <= 4:
            return False
        return abs(E[k - 1] - np.mean(E[k - 4:k])) < 0.05 * abs(E[k - 1])

    for k in range(1, n):
        if track:
            mon.check(not E[k - 1] < tmin * (1 - 1e-6), "late_tol",
                      "stops as soon as the residual is below tolerance", call=k, errors=E, tol=tol)
        if not near(P[k - 1], P[k]):
            mon.check(not close5(P[k - 1], P[k]), "late_width",
                      "stops when the widths hardly change", call=k, old=P[k - 1], new=P[k])
        if track and abs(abs(E[k - 1] - np.mean(E[max(0, k - 4):k])) - 0.05 * E[k - 1]) > 1e-6 * E[k - 1]:
            mon.check(not stagnant(k), "late_stagnation", "stops when the error stagnates", errors=E)
    with mon.sut("widths after the last solve"):
        wn, en = s.opt.get_segment_width_parameters(
            sol, options=dict(method) or {"method": "residual", "sub_method": "equal_area"})
    wn = np.asarray(wn, float).reshape(sp.nph, m.ns)
    why = None
    if track and E[-1] < tmin * (1 + 1e-6):
        why = "tol"
    elif n == M:
        why = "limit"
    elif close5(P[-1], wn) or near(P[-1], wn):
        why = "width"
    elif track and n > 4 and abs(E[-1] - np.mean(E[-4:])) < 0.05 * abs(E[-1]) * (1 + 1e-6):
        why = "stagnation"
    if why:
        mon.event("stop_" + why)
    mon.check(why is not None, "early", "stopped without a reason", calls=n, limit=M, errors=E,
              tol=tol, widths=P, next=wn)
    # ---- records and results
    last = trace[-1][0].result
    for key in ("x", "f", "g", "lam_x", "lam_g"):
        mon.close(np.ravel(arr(sol[key])), np.ravel(arr(last[key])), "result",
                  "returned solution is that of the last NLP solve", rtol=0, atol=0, field=key)
    mon.check(s.opt.iter_count == n, "iter_count", "recorded number of solves",
              got=s.opt.iter_count, want=n)
    if track:
        info = s.opt.iter_info
        ok = mon.check(sorted(info) == list(range(1, n + 1)), "iter_info_keys", "recorded errors",
                       got=sorted(info), want=n)
        if ok:
            mon.close([float(info[k]) for k in range(1, n + 1)], E, "iter_info", "recorded errors",
                      rtol=1e-6, atol=1e-9 * max(E))
    post_times(s, mon, sol, P[-1])
    replay(s, mon, trace, P, method, tol, init)
    s.ref_w = P[-1]
    return sol


def post_times(s, mon, sol, w):
    """Post-processing uses the widths of that solve"""
    with mon.sut("process_results"):
        post = s.opt.process_results(sol, plot=False)
        x, u, t, a = post.get_original_data()[:4]
    TR = s.ref.decode(np.ravel(arr(sol["x"])), w)
    want = np.concatenate([PhaseRef(s.mesh, T).t for T in TR])
    mon.close(np.ravel(arr(t)), want, "post_widths", "times of the post-processed solution",
              rtol=1e-9, atol=1e-9, widths=w)


def replay(s, mon, trace, P, method, tol, init):
    """The widths of a call come from the solution of the call before and the widths it used"""
    n = len(trace)
    if n < 2 or init is not None:
        return
    k = int(s.rng.integers(1, n))
    sp, m = s.spec, s.mesh
    ans = [x for _, x in trace[:k]]
    with mon.sut("replayed refinement"):
        o = s.mp.mpopt_h_adaptive(gen.build_ocp(s.mp, ca, sp), m.ns, list(s.orders), s.scheme)
        if s.grid:
            o.grid_type = list(s.grid)
        o.tol_residual = list(tol)
        it = iter(ans)
        s.CAP.responder = lambda a, b: next(it)
        sol = o.solve(max_iter=k, mpopt_options=dict(method))
        w, _ = o.get_segment_width_parameters(
            sol, options=dict(method) or {"method": "residual", "sub_method": "equal_area"})
    mon.event("refined_widths")
    mon.close(np.asarray(w, float).reshape(sp.nph, m.ns), P[k], "refined_widths",
              "the next call uses the refined widths", rtol=0, atol=1e-10, call=k)
