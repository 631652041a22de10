"""Dynamics residuals"""
import numpy as np

from ..trans import PhaseRef, arr, case_list, check_grid, dyn_values, own_grids, post_setup, random_nodes

PROPERTY = "C16"
RULE = ("dynamics residuals of random decision vectors (random problems, meshes, widths, "
        "optimizer classes) on user-given points (random, nodes, empty segments) and on the "
        "library's grids, absolute and relative, compared with the defect of the reference "
        "polynomials; non-trivial = distinct (problem, mesh, optimizer).")
ASSUMPTIONS = ["decision vector order X, U, t0, tf, a, widths (documented)",
               "on the library's grids the points are recovered from the returned times"]
NEED = {"residual_points": 3000, "relative": 100, "grid_fixed": 20, "grid_mid-points": 20,
        "grid_spectral": 20, "empty_segments": 30, "multi_phase": 20, "phase_grids": 20}


def cases(tier, seed):
    return case_list(tier, seed, salt=16, quick=600)


def expect(s, p, q, TS, i, tau):
    """(residual, dynamics term), scaled units, per unit of the reference interval"""
    sp = s.spec
    X, U = q.val(i, tau, "X"), q.val(i, tau, "U")
    t = q.time(i, tau)
    F = q.h(i) * dyn_values(s, p, X, U, t, q.T.A) * sp.scale_x
    D = q.val(i, tau, "X", 1) * sp.scale_x
    return D - F, F


def run(case, mon):
    s = post_setup(case, mon)
    judge(s, mon)
    if s.again_solved():
        judge(s, mon)


def judge(s, mon):
    rng, m, sp = s.rng, s.mesh, s.spec
    Q = [PhaseRef(m, T) for T in s.trajs()]
    tol = 1e-7 if s.dmat == "symbolic" else 1e-5
    own = list(s.opt.grid_type)
    grids = ["user", "nodes", "default", "fixed", "mid-points", "spectral"]
    rng.shuffle(grids)
    for g in grids[:4] + ["default"] * int(rng.integers(0, 2)):
        rel = bool(rng.uniform() < 0.4)
        kw = {}
        nodes = None
        want = None
        if rng.uniform() < 0.5:
            own = own_grids(s)
        if g == "user":
            nodes = random_nodes(rng, s)
        elif g == "nodes":
            nodes = [[x.copy() for x in m.x] for _ in range(sp.nph)]
        elif g == "default":
            want = list(own)
            mon.event("phase_grids", len(set(own)) > 1)
        else:
            kw["grid_type"] = g
            want = [g] * sp.nph
            mon.event("grid_" + g)
        for rel in (rel, not rel)[:2 if rng.uniform() < 0.3 else 1]:
            with mon.sut("get_dynamics_residuals (%s)" % g):
                ti, res = s.opt.get_dynamics_residuals(
                    s.sol, nodes=None if nodes is None else [[x.copy() for x in ph] for ph in nodes],
                    residual_type="relative" if rel else None, **kw)
            mon.event("relative", rel)
            compare(s, mon, Q, ti, res, nodes, rel, tol, g, want)


def compare(s, mon, Q, ti, res, nodes, rel, tol, g, want):
    m, sp = s.mesh, s.spec
    if not mon.check(len(ti) == sp.nph and len(res) == sp.nph, "phases", "one entry per phase"):
        return
    for p in range(sp.nph):
        if not mon.check(len(ti[p]) == m.ns and len(res[p]) == m.ns, "segments",
                         "one entry per segment", n=len(res[p])):
            continue
        if want is not None:
            check_grid(mon, m, Q[p].T.wd, [Q[p].tau(i, np.ravel(arr(ti[p][i]))) for i in range(m.ns)],
                       want[p], 1e-7)
        W, F, got = [], [], []
        for i in range(m.ns):
            t = np.ravel(arr(ti[p][i]))
            if nodes is not None:
                tau = nodes[p][i]
                if not mon.check(len(t) == len(tau), "count", "points in the segment",
                                 got=len(t), want=len(tau), seg=i):
                    continue
                mon.close(t, Q[p].time(i, tau), "t", "times of the residuals", rtol=1e-9, atol=1e-9)
            else:
                tau = Q[p].tau(i, t)
                e = 1e-7 * m.len
                mon.check(np.all(tau >= m.tau0 - e) and np.all(tau <= m.tau1 + e), "outside",
                          "points lie in their segment", tau=tau, seg=i)
            if len(tau) == 0:
                mon.event("empty_segments")
                mon.check(res[p][i] is None or np.size(res[p][i]) == 0, "empty", "no residual")
                continue
            r, f = expect(s, p, Q[p], None, i, tau)
            mon.event("residual_points", len(tau))
            W.append(r)
            F.append(f)
            got.append((i, arr(res[p][i])))
        if not F:
            continue
        # size of the terms the residual is the difference of
        mag = np.array([max(np.abs(w).max() + np.abs(f).max(),
                            Q[p].mag(i, "X", 1) * sp.scale_x.max())
                        for w, f, (i, _) in zip(W, F, got)])
        den = np.ones(sp.nx)
        if rel:
            den = np.abs(np.vstack(F)).max(axis=0)
            if (den < 1e-6 * mag.max()).any() and (den > 0).any() and ((den < 1e-6 * mag.max()) & (den > 0)).any():
                mon.event("ill_scaled_relative")
                continue
            den = np.where(den == 0, 1.0, den)
        for (i, r), w, mg in zip(got, W, mag):
            mon.close(r, w / den, "residual", "dynamics residual", rtol=1e-6,
                      atol=tol * mg / den.min(), phase=p, seg=i, grid=g, relative=rel)
