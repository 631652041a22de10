"""Second derivatives"""
import numpy as np

from ..trans import PhaseRef, arr, case_list, check_grid, own_grids, post_setup, random_nodes

PROPERTY = "C18"
RULE = ("second derivatives of states and controls of random decision vectors on user-given and "
        "library grids (fixed, mid-points, spectral) per phase and segment; non-trivial = "
        "distinct (problem, mesh, optimizer).")
ASSUMPTIONS = ["decision vector order X, U, t0, tf, a, widths (documented)",
               "values are in scaled units with respect to the reference coordinate"]
NEED = {"points": 3000, "grid_fixed": 20, "grid_mid-points": 20, "grid_spectral": 20,
        "multi_phase": 20, "empty_segments": 20}


def cases(tier, seed):
    return case_list(tier, seed, salt=18, quick=700)


def run(case, mon):
    s = post_setup(case, mon)
    judge(s, mon)
    if s.again_solved():
        judge(s, mon)


def judge(s, mon):
    rng, m, sp = s.rng, s.mesh, s.spec
    Q = [PhaseRef(m, T) for T in s.trajs()]
    for g in ("user", str(rng.choice(["fixed", "mid-points", "spectral"])), "default"):
        nodes, kw = None, {}
        if rng.uniform() < 0.5:
            own_grids(s)
        own = list(s.opt.grid_type)
        if g == "user":
            nodes = random_nodes(rng, s)
            kw["nodes"] = [[x.copy() for x in ph] for ph in nodes]
        elif g != "default":
            kw["grid_type"] = g
            mon.event("grid_" + g)
        with mon.sut("get_state_second_derivative (%s)" % g):
            ti, dx, du = s.opt.get_state_second_derivative(s.sol, **kw)
        if not mon.check(len(ti) == len(dx) == len(du) == sp.nph, "phases", "one entry per phase"):
            continue
        for p in range(sp.nph):
            compare(s, mon, Q[p], p, None if nodes is None else nodes[p], ti[p], dx[p], du[p], g,
                    kw.get("grid_type", "spectral"))
        # one phase at a time
        p = int(rng.integers(0, sp.nph))
        kw1 = dict(kw)
        if nodes is not None:
            kw1["nodes"] = kw["nodes"][p]
        with mon.sut("get_state_second_derivative_single_phase"):
            t1, x1, u1 = s.opt.get_state_second_derivative_single_phase(s.sol, p, **kw1)
        compare(s, mon, Q[p], p, None if nodes is None else nodes[p], t1, x1, u1, g + "/single",
                kw.get("grid_type", own[p]))


def compare(s, mon, q, p, nodes, ti, dx, du, g, lib):
    m, sp = s.mesh, s.spec
    if not mon.check(len(ti) == len(dx) == len(du) == m.ns, "segments", "one entry per segment"):
        return
    if nodes is None:
        check_grid(mon, m, q.T.wd, [q.tau(i, np.ravel(arr(ti[i]))) for i in range(m.ns)], lib, 1e-7)
    for i in range(m.ns):
        t = np.ravel(arr(ti[i]))
        if nodes is not None:
            tau = nodes[i]
            if not mon.check(len(t) == len(tau), "count", "points in the segment", got=len(t),
                             want=len(tau)):
                continue
            if len(tau) == 0:
                mon.event("empty_segments")
                continue
            mon.close(t, q.time(i, tau), "t", "times", rtol=1e-9, atol=1e-9)
        else:
            if len(t) == 0:
                mon.event("empty_segments")
                continue
            tau = q.tau(i, t)
            e = 1e-7 * m.len
            mon.check(np.all(tau >= m.tau0 - e) and np.all(tau <= m.tau1 + e), "outside",
                      "points lie in their segment", tau=tau, seg=i)
        mon.event("points", len(tau))
        for got, what, sc in ((dx, "X", sp.scale_x), (du, "U", sp.scale_u)):
            w = q.val(i, tau, what, 2) * sc
            tol = 1e-7 if s.dmat == "symbolic" else 1e-5
            mg = q.mag(i, what, 2) * sc.max()
            mon.close(arr(got[i]).reshape(len(tau), -1), w, "second_" + what, "second derivative",
                      rtol=1e-6, atol=tol * mg, phase=p, seg=i, grid=g)
