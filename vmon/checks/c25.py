"""What solve() hands to the solver, call by call"""
import casadi as ca
import numpy as np

from .. import gen
from ..trans import PhaseRef, Setup, arr, case_list

PROPERTY = "C25"
RULE = ("sequences of solve calls with random arguments (starting points and multipliers under "
        "all names and container types, widths, plugins, options, reinitialisation) on every "
        "optimizer class, and the module level solve; every solver object and call is traced; "
        "non-trivial = distinct (class, mesh, argument sequence).")
ASSUMPTIONS = ["a starting point is given under one of its names at a time"]
NEED = {"calls": 600, "class_mpopt": 20, "class_h": 20, "class_adaptive": 20, "class_ph": 20,
        "given_x": 100, "given_lam": 100, "given_widths": 100, "reinit": 100, "reused": 100,
        "options": 100, "module_solve": 15, "real_solves": 10}
CASE_LIMIT = 200


def cases(tier, seed):
    return case_list(tier, seed, salt=25, quick=500)


def box(rng, v):
    return [ca.DM(v), np.array(v), [float(x) for x in v], np.array(v).reshape(-1, 1)][
        int(rng.integers(0, 4))]


def options(rng, plugin):
    if plugin == "ipopt":
        pool = {"ipopt.max_iter": int(rng.integers(1, 500)), "ipopt.acceptable_tol": 3e-3,
                "ipopt.print_level": int(rng.integers(0, 3)), "ipopt.tol": 1e-7, "ipopt.sb": "no",
                "print_time": 1, "expand": True, "ipopt.mu_strategy": "adaptive"}
    else:
        pool = {"max_iter": int(rng.integers(1, 100)), "print_iteration": False, "tol_pr": 1e-5,
                "print_header": False, "expand": True}
    ks = [k for k in pool if rng.uniform() < 0.35]
    return {k: pool[k] for k in ks}


def run(case, mon):
    from .. import sut

    s = Setup(case, mon, solve=False, kinds=("mpopt", "h", "adaptive"), kind_p=(0.5, 0.2, 0.3))
    rng, m, sp, CAP = s.rng, s.mesh, s.spec, s.CAP
    kind = s.kind
    if kind == "mpopt" and rng.uniform() < 0.35:
        kind = "ph"
        with mon.sut("building mpopt_ph_adaptive"):
            s.opt = s.mp.mpopt_ph_adaptive(gen.build_ocp(s.mp, ca, sp), m.ns, list(s.orders), s.scheme)
    mon.event("class_" + kind)
    if rng.uniform() < 0.3 and kind == "mpopt":
        module_solve(s, mon)
    # default options, from an optimizer of the same class with nothing given
    defaults = {}
    for plugin in ("ipopt", "sqpmethod"):
        with mon.sut("default solve"):
            CAP.reset("fake")
            o = type(s.opt)(gen.build_ocp(s.mp, ca, sp), m.ns, list(s.orders), s.scheme)
            o.solve(solver=plugin, **({"max_iter": 1} if kind == "h" else {}))
        defaults[plugin] = dict(CAP.solvers[-1].opts)
    CAP.reset("fake", responder=lambda a, b: s.ref.random_z(rng))
    live = None
    prev = None
    bounds = None
    seq = []
    for k in range(int(rng.integers(2, 6))):
        kw, want = {}, {}
        plugin = "ipopt"
        if rng.uniform() < 0.3:
            plugin = kw["solver"] = str(rng.choice(["sqpmethod", "ipopt", "blocksqp"]))
        given = options(rng, plugin) if rng.uniform() < 0.6 else {}
        if given:
            kw["nlp_solver_options"] = dict(given)
        if rng.uniform() < 0.35:
            kw["reinitialize_nlp"] = True
        init = None
        r = rng.uniform()
        if prev is not None and r < 0.3:
            init = prev
            want = dict(x0=init["x"], lam_x0=init["lam_x"], lam_g0=init["lam_g"])
            mon.event("given_lam")
        elif r < 0.75:
            init = {}
            if rng.uniform() < 0.7:
                v = s.ref.random_z(rng)
                init[str(rng.choice(["x", "x0"]))] = box(rng, v)
                want["x0"] = v
            if rng.uniform() < 0.5:
                v = rng.uniform(-1, 1, s.ref.nz)
                init[str(rng.choice(["lam_x", "lam_x0"]))] = box(rng, v)
                want["lam_x0"] = v
            if rng.uniform() < 0.5 and live is not None:
                v = rng.uniform(-1, 1, live.nlp["g"].numel())
                init[str(rng.choice(["lam_g", "lam_g0"]))] = box(rng, v)
                want["lam_g0"] = v
            if rng.uniform() < 0.3:
                init["f"] = ca.DM(1.0)
                init["lam_p"] = ca.DM.zeros(3)
            if "lam_x0" in want or "lam_g0" in want:
                mon.event("given_lam")
        if init is not None:
            kw["initial_solution"] = init
        w = np.full((sp.nph, m.ns), 1.0 / m.ns)
        wknown = True
        if kind in ("mpopt", "ph") and rng.uniform() < 0.5:
            w = gen.make_widths(rng, m.ns, sp.nph)
            kw["mpopt_options"] = {"nlp_sw_params": w.ravel() if rng.uniform() < 0.5
                                   else w.ravel().tolist()}
            mon.event("given_widths")
        if kind == "h":
            kw["max_iter"] = 1
            s.opt.tol_residual = [1e-14] * sp.nph
            wknown = init is None
        n_s, n_c = len(CAP.solvers), len(CAP.log)
        with mon.sut("solve (%s)" % kind):
            sol = s.opt.solve(**kw)
        seq.append(sorted(kw))
        mon.event("calls")
        fresh = live is None or kw.get("reinitialize_nlp", False)
        mon.check(len(CAP.solvers) - n_s == int(fresh), "solver_objects",
                  "a solver is created once and again only on request",
                  created=len(CAP.solvers) - n_s, first=live is None, args=sorted(kw))
        if not mon.check(len(CAP.log) - n_c == 1, "solver_calls", "one solver call per solve",
                         calls=len(CAP.log) - n_c):
            return
        rec, call = CAP.log[-1]
        if fresh:
            mon.event("reinit")
            live = rec
            mon.check(rec is CAP.solvers[-1], "which_solver", "the new solver is the one called")
            mon.check(rec.plugin == plugin, "plugin", "chosen plugin", got=rec.plugin, want=plugin)
            base = defaults.get(plugin, {})
            opts = dict(base)
            opts.update(given)
            mon.event("options", bool(given))
            mon.check(rec.opts == opts, "options", "given options override the defaults",
                      got=rec.opts, want=opts)
        else:
            mon.event("reused")
            mon.check(rec is live, "reuse", "the solver is reused")
        i = call.inputs
        mon.check(set(i) <= {"x0", "p", "lam_x0", "lam_g0", "lbx", "ubx", "lbg", "ubg", "lam_p0"},
                  "inputs", "inputs of the solver", got=sorted(i))
        if "x0" not in want:
            want["x0"] = s.ref.guess()
        else:
            mon.event("given_x")
        for key in ("x0", "lam_x0", "lam_g0"):
            if key in want:
                v = np.ravel(arr(want[key]))
                if mon.check(key in i, "missing_" + key, "given values reach the solver", name=key):
                    mon.close(i[key], v, key, "given values reach the solver unchanged",
                              rtol=1e-12 if key != "x0" else 1e-9, atol=1e-12, args=sorted(init or {}))
            else:
                mon.check(key not in i or np.all(i[key] == 0), "stale_" + key,
                          "multipliers that were not given are not used", name=key)
        if kind == "adaptive":
            mon.check("p" not in i or i["p"].size == 0, "adaptive_p", "widths are variables")
        else:
            ok = mon.check("p" in i and i["p"].size == m.ns * sp.nph, "widths_size", "width fractions",
                           got=i.get("p"))
            if ok and wknown:
                mon.close(i["p"].reshape(sp.nph, m.ns), w, "widths", "width fractions reach the solver",
                          rtol=1e-12, atol=1e-14)
        b = [i[x] for x in ("lbx", "ubx", "lbg", "ubg")]
        mon.check(b[0].size == rec.nx and b[2].size == rec.nlp["g"].numel(), "bounds_size",
                  "bounds of the right size")
        if bounds is not None:
            mon.check(all(np.array_equal(x, y) for x, y in zip(b, bounds)), "bounds_changed",
                      "bounds do not depend on the call")
        bounds = b
        for key in ("x", "f", "g", "lam_x", "lam_g"):
            mon.close(np.ravel(arr(sol[key])), np.ravel(arr(call.result[key])), "answer",
                      "the solver's answer is returned unchanged", rtol=0, atol=0, field=key)
        prev = sol
    mon.nontrivial(kind, s.orders, s.scheme, seq)
    if rng.uniform() < 0.12:
        real(s, mon, kind)


def module_solve(s, mon):
    """mp.solve builds the optimizer, solves and post-processes"""
    rng, m, sp, CAP = s.rng, s.mesh, s.spec, s.CAP
    mon.event("module_solve")
    CAP.reset("fake", responder=lambda a, b: s.ref.random_z(rng))
    po = list(s.orders)
    if len(set(po)) == 1 and rng.uniform() < 0.6:
        po = po[0]
    v = s.ref.random_z(rng)
    w = gen.make_widths(rng, m.ns, sp.nph)
    sd, given = {}, {}
    if rng.uniform() < 0.6:
        sd["initial_solution"] = {"x0": v}
    if rng.uniform() < 0.5:
        given = options(rng, "ipopt")
        sd["nlp_solver_options"] = dict(given)
    if rng.uniform() < 0.5:
        sd["mpopt_options"] = {"nlp_sw_params": w.ravel()}
    else:
        w = np.full((sp.nph, m.ns), 1.0 / m.ns)
    kw = {}
    if sd:
        kw["solve_dict"] = sd
    if rng.uniform() < 0.5:
        kw["residual_x"] = bool(rng.uniform() < 0.5)
        kw["residual_dx"] = bool(rng.uniform() < 0.5)
    with mon.sut("mp.solve"):
        mpo, post = s.mp.solve(gen.build_ocp(s.mp, ca, sp), n_segments=m.ns, poly_orders=po,
                               scheme=s.scheme, plot=bool(rng.uniform() < 0.15), **kw)
    if not mon.check(len(CAP.solvers) == 1 and len(CAP.log) == 1, "module_calls", "one solver call",
                     n=len(CAP.log)):
        return
    rec, c = CAP.log[0]
    mon.check(rec.nx == s.ref.nz, "module_size", "mesh of the module level solve", got=rec.nx,
              want=s.ref.nz)
    if rec.nx != s.ref.nz:
        return
    mon.close(c.inputs["x0"], v if "initial_solution" in sd else s.ref.guess(), "module_x0",
              "starting point", rtol=1e-9, atol=1e-9)
    mon.close(c.inputs["p"].reshape(w.shape), w, "module_widths", "widths", rtol=1e-12, atol=1e-14)
    mon.check(all(rec.opts.get(k) == x for k, x in given.items()), "module_options", "options",
              got=rec.opts, want=given)
    # the NLP is the one of this scheme
    z = s.ref.random_z(rng)
    f, _ = rec.eval(z, w.ravel())
    J, mag = s.ref.objective(z, w)
    mon.close(f, J, "module_objective", "objective", rtol=1e-6, atol=1e-6 * (1 + mag))
    ans = np.ravel(arr(c.result["x"]))
    TR = s.ref.decode(ans, w)
    ph = [int(i) for i in rng.permutation(sp.nph)]
    with mon.sut("data of the post processor of mp.solve"):
        x, u, t = [arr(q) for q in post.get_original_data(phases=list(ph))[:3]]
    mon.close(np.ravel(t), np.concatenate([PhaseRef(m, TR[p]).t for p in ph]), "module_t", "times",
              rtol=1e-9, atol=1e-9)
    mon.close(x, np.vstack([TR[p].X for p in ph]), "module_x", "states", rtol=1e-9, atol=1e-9)
    mon.check(isinstance(mpo, s.mp.mpopt), "module_optimizer", "optimizer is returned")


def real(s, mon, kind):
    """Options act on the real plugin, and a converged answer is a fixed point"""
    mp, CAP = s.mp, s.CAP
    rng = s.rng
    CAP.reset("real")
    ocp = mp.OCP(n_states=1, n_controls=1)
    ocp.dynamics[0] = lambda x, u, t: [u[0] - x[0] ** 3]
    ocp.running_costs[0] = lambda x, u, t: x[0] ** 2 + u[0] ** 2
    ocp.x00[0], ocp.lbtf[0], ocp.ubtf[0] = 1.0, 1.0, 1.0
    ocp.lbu[0], ocp.ubu[0], ocp.lbx[0], ocp.ubx[0] = -5, 5, -5, 5
    cls = dict(mpopt=mp.mpopt, h=mp.mpopt_h_adaptive, adaptive=mp.mpopt_adaptive,
               ph=mp.mpopt_ph_adaptive)[kind]
    n = int(rng.integers(1, 3))
    with mon.sut("real solve with an iteration limit"):
        o = cls(ocp, 2, 4, s.scheme)
        o.solve(nlp_solver_options={"ipopt.max_iter": n}, **({"max_iter": 1} if kind == "h" else {}))
        st = o.nlp_solver.stats()
    mon.event("real_solves")
    mon.check(st["iter_count"] <= n, "max_iter", "iteration limit acts on the solver",
              iterations=st["iter_count"], limit=n)
    with mon.sut("real solve and warm start"):
        sol = o.solve(reinitialize_nlp=True, **({"max_iter": 1} if kind == "h" else {}))
        again = o.solve(initial_solution=sol, **({"max_iter": 1} if kind == "h" else {}))
    if o.nlp_solver.stats()["success"] and kind in ("mpopt", "ph"):
        mon.close(float(arr(again["f"]).ravel()[0]), float(arr(sol["f"]).ravel()[0]), "warm_cost",
                  "warm start stays at the optimum", rtol=1e-4, atol=1e-4)
