"""State residuals"""
import numpy as np

from .. import ref
from ..trans import PhaseRef, arr, case_list, check_grid, dyn_values, own_grids, pick_phases, post_setup, random_nodes

PROPERTY = "C17"
RULE = ("state residuals and integrated states of random decision vectors (random problems, "
        "meshes, widths, optimizer classes) on user-given and library grids, absolute and "
        "relative, for subsets of the phases, compared with the reference integral of the "
        "interpolated dynamics; non-trivial = distinct (problem, mesh, optimizer).")
ASSUMPTIONS = ["decision vector order X, U, t0, tf, a, widths (documented)",
               "the dynamics are integrated as the polynomial through the segment's points"]
NEED = {"residual_points": 1500, "relative": 50, "empty_segments": 20, "multi_phase": 20,
        "phase_subsets": 20}


def cases(tier, seed):
    return case_list(tier, seed, salt=17, quick=400, thorough=3000)


def run(case, mon):
    s = post_setup(case, mon, max_seg=3, pmax=5)
    judge(s, mon)
    if s.again_solved(0.25):
        judge(s, mon)


def judge(s, mon):
    rng, m, sp = s.rng, s.mesh, s.spec
    Q = [PhaseRef(m, T) for T in s.trajs()]
    for rep in range(2):
        rel = bool(rng.uniform() < 0.4)
        phases = None
        if rng.uniform() < 0.4 and sp.nph > 1:
            phases = pick_phases(rng, sp.nph)
            mon.event("phase_subsets")
        nodes = random_nodes(rng, s, 0, 6, spread=True)
        lib = rng.uniform() < 0.35
        if lib:
            own = own_grids(s)
            # a few points: high degrees would extrapolate to the start of the segment
            s.opt._MAX_GRID_POINTS = max(m.orders) + int(rng.integers(0, 3))
            mon.event("phase_grids", len(set(own)) > 1)
            mon.event("library_grid")
        for rel in (rel, not rel)[:2 if rng.uniform() < 0.2 else 1]:
            with mon.sut("get_states_residuals"):
                xi, ui, ti, res = s.opt.get_states_residuals(
                    s.sol, phases=phases, nodes=None if lib else [[x.copy() for x in ph] for ph in nodes],
                    residual_type="relative" if rel else None)
            mon.event("relative", rel)
            for p in range(sp.nph) if phases is None else phases:
                if lib:
                    if not mon.check(len(ti[p]) == m.ns, "segments", "one entry per segment"):
                        continue
                    nodes[p] = [np.zeros(0) if t is None or np.size(t) == 0 else Q[p].tau(i, np.ravel(arr(t)))
                                for i, t in enumerate(ti[p])]
                    check_grid(mon, m, Q[p].T.wd, nodes[p], own[p], 1e-7)
                compare(s, mon, Q[p], p, nodes[p], xi[p], ui[p], ti[p], res[p], rel)
    # one phase on its own evaluation grid
    p = int(rng.integers(0, sp.nph))
    own = own_grids(s)
    s.opt._MAX_GRID_POINTS = max(m.orders) + int(rng.integers(0, 3))
    with mon.sut("compute_states_from_solution_dynamics"):
        xi, ui, ti, res = s.opt.compute_states_from_solution_dynamics(s.sol, p)
    mon.event("single_phase")
    if mon.check(len(ti) == m.ns, "segments", "one entry per segment"):
        taus = [np.zeros(0) if t is None or np.size(t) == 0 else Q[p].tau(i, np.ravel(arr(t)))
                for i, t in enumerate(ti)]
        check_grid(mon, m, Q[p].T.wd, taus, own[p], 1e-7)
        compare(s, mon, Q[p], p, taus, xi, ui, ti, res, False)


def compare(s, mon, q, p, nodes, xi, ui, ti, res, rel):
    m, sp = s.mesh, s.spec
    if not mon.check(len(xi) == len(ui) == len(ti) == len(res) == m.ns, "segments",
                     "one entry per segment"):
        return
    E = []
    for i in range(m.ns):
        tau = np.asarray(nodes[i], float)
        if len(tau) == 0:
            mon.event("empty_segments")
            mon.check(all(v is None or np.size(v) == 0 for v in (xi[i], ui[i], ti[i], res[i])),
                      "empty", "no data for a segment without points")
            continue
        X, U = q.val(i, tau, "X"), q.val(i, tau, "U")
        t = q.time(i, tau)
        F = q.h(i) * dyn_values(s, p, X, U, t, q.T.A) * sp.scale_x
        W = np.array([ref.weights(tau, m.tau0, b) for b in tau])
        # noise: quadrature accuracy times the (possibly extrapolated) basis
        amp = np.abs(W).sum(axis=1).max() * np.abs(F).max() + 1e-12
        xs = q.T.X[m.start[i]] * sp.scale_x
        xint = xs + W @ F
        E.append((i, t, X * sp.scale_x, U * sp.scale_u, xint, amp))
        mon.event("residual_points", len(tau))
    if not E:
        return
    den = np.ones(sp.nx)
    if rel:
        den = np.max([np.abs(e[4]).max(axis=0) for e in E], axis=0)
        den = np.where(den == 0, 1.0, den)
        if den.min() < 1e-4 * max(e[5] for e in E):
            mon.event("ill_scaled_relative")
            return
    for i, t, X, U, xint, amp in E:
        base = 5e-5 if s.dmat == "symbolic" else 1e-6
        at = base * (amp + np.abs(X).max())
        ctx = dict(phase=p, seg=i, relative=rel, method=s.dmat)
        mon.close(np.ravel(arr(ti[i])), t, "t", "times", rtol=1e-9, atol=1e-9, **ctx)
        mon.close(arr(xi[i]).reshape(xint.shape), xint, "xint", "integrated states", rtol=1e-6, atol=at, **ctx)
        mon.close(arr(ui[i]).reshape(U.shape), U, "u", "controls", rtol=1e-6, atol=1e-6 * (1 + np.abs(U).max()), **ctx)
        mon.close(arr(res[i]).reshape(xint.shape), (X - xint) / den, "residual", "state residual",
                  rtol=1e-6, atol=at / den.min(), **ctx)
