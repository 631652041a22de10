"""Refinement of the segment widths from a solution"""
import numpy as np

from .. import gen
from ..trans import PhaseRef, Setup, arr, case_list
from .c16 import expect
from .c21 import judge_equal_area, judge_merge_split

PROPERTY = "C20"
RULE = ("refined widths from random decision vectors after random refinement histories (so that "
        "the previous widths are unequal), for every method, grid type, tolerances around the "
        "residual of each phase and width limits; non-trivial = distinct (problem, mesh, "
        "method, tolerances, widths).")
ASSUMPTIONS = ["the widths in use are those of the last solver call (checked by C22)",
               "limits are enforced before the final normalisation, i.e. up to a common factor"]
NEED = {"refinements": 600, "phase_kept": 150, "phase_refined": 300, "method_residual": 200,
        "method_control_slope": 100, "sub_merge_split": 100, "sub_equal_area": 100,
        "equal_default": 50, "multi_phase": 30, "slope_clipped": 20, "steepest_nodes": 20, "few_steep_nodes": 3, "unequal_widths": 60}


def cases(tier, seed):
    return case_list(tier, seed, salt=20, quick=400)


def run(case, mon):
    s = Setup(case, mon, kinds=("h",), kind_p=(1.0,), spec_opts=dict(flags=False), max_seg=7,
              pmax=5, solve=False)
    rng, m, sp = s.rng, s.mesh, s.spec
    if rng.uniform() < 0.5:
        with mon.sut("grid type"):
            s.opt.grid_type = [str(rng.choice(["fixed", "mid-points", "spectral"]))
                               for _ in range(sp.nph)]
    # a history that leaves unequal widths behind
    s.opt.tol_residual = [1e-14] * sp.nph
    mo = {"method": "residual", "sub_method": str(rng.choice(["merge_split", "equal_area", "equal_area"]))}
    with mon.sut("refinement history"):
        s.CAP.reset("fake", responder=lambda a, b: s.ref.random_z(rng), max_calls=10)
        s.sol = s.opt.solve(max_iter=int(rng.integers(1, 6)), mpopt_options=dict(mo))
    s.call = s.CAP.log[-1][1]
    wd = s.call.inputs["p"].reshape(sp.nph, m.ns)
    mon.event("unequal_widths", np.ptp(wd) > 1e-9)
    for rep in range(5):
        one(s, mon, wd)


def one(s, mon, wd):
    rng, m, sp = s.rng, s.mesh, s.spec
    # the solution that is looked at: the last one, or another one on the same widths
    sol = s.sol
    if rng.uniform() < 0.6:
        import casadi as ca
        z = s.ref.random_z(rng)
        if rng.uniform() < 0.3:  # smooth controls: slopes below the threshold
            tr = s.ref.decode(z, wd, True)
            for T in tr:
                T.U[:] = T.U[:1] + 1e-9 * T.U
            z = s.ref.encode(tr)
        elif rng.uniform() < 0.4:  # steep in one or two segments only
            tr = s.ref.decode(z, wd, True)
            for T in tr:
                U = T.U.copy()
                T.U[:] = T.U[:1]
                for i in rng.permutation(m.ns)[: int(rng.integers(1, 3))]:
                    T.U[m.seg(i)][1:-1] = U[m.seg(i)][1:-1]
            z = s.ref.encode(tr)
        sol = {"x": ca.DM(z)}
    TR = s.ref.decode(np.asarray(sol["x"]).ravel(), wd)
    Q = [PhaseRef(m, T) for T in TR]
    method = str(rng.choice(["residual", "residual", "control_slope", "default"]))
    sub = str(rng.choice(["equal_area", "merge_split", ""]))
    opts = {"method": method}
    if method == "residual" and sub:
        opts["sub_method"] = sub
    elif method == "residual":
        sub = "equal_area"
    if method == "default":
        opts, sub = {}, ""
        if rng.uniform() < 0.5:
            opts = {"method": "no such method"}
    if method == "residual" and rng.uniform() < 0.06:
        sub = opts["sub_method"] = "no such method"
    with mon.sut("get_dynamics_residuals"):
        ti, _ = s.opt.get_dynamics_residuals(sol)
    if rng.uniform() < 0.1 and method != "default":
        sol = None
    # reference residuals on the same points
    R = []
    for p in range(sp.nph):
        ph = []
        for i in range(m.ns):
            t = np.ravel(arr(ti[p][i]))
            ph.append(np.zeros((0, sp.nx)) if not len(t) else
                      expect(s, p, Q[p], None, i, Q[p].tau(i, t))[0])
        R.append(ph)
    seg = [np.array([abs(r).max() if r.size else 0.0 for r in ph]) for ph in R]
    e = np.array([v.max() for v in seg])
    tol = e * np.where(rng.uniform(size=sp.nph) < 0.35, 3.0, rng.choice([0.9, 0.5, 0.1, 1e-3], sp.nph))
    s.opt.tol_residual = [float(x) for x in tol]
    lbh = [float(rng.choice([1e-5] * 7 + [0.02, 0.5 / m.ns])) for _ in range(sp.nph)]
    ubh = [float(rng.choice([1.0] * 7 + [0.6, 1.5 / m.ns])) for _ in range(sp.nph)]
    ubh = [min(1.0, max(b, 1.0 / m.ns)) for b in ubh]
    s.opt.lbh, s.opt.ubh = list(lbh), list(ubh)
    with mon.sut("get_segment_width_parameters"):
        w, err = s.opt.get_segment_width_parameters(sol, opts)
    w = np.asarray(w, float).ravel()
    mon.event("refinements")
    mon.nontrivial(s.orders, s.scheme, method, sub, np.round(tol, 12), np.round(wd, 9))
    if not mon.check(w.size == m.ns * sp.nph, "count", "one width per segment and phase", n=w.size):
        return
    w = w.reshape(sp.nph, m.ns)
    mon.check(np.all(np.isfinite(w)) and np.all(w > 0), "positive", "positive widths", w=w,
              method=method, sub=sub)
    mon.close(w.sum(axis=1), np.ones(sp.nph), "sum", "widths sum to one in each phase", rtol=0,
              atol=1e-9, method=method, sub=sub)
    if m.ns == 1 or sol is None or method == "default":
        mon.event("equal_default")
        mon.close(w, np.full((sp.nph, m.ns), 1.0 / m.ns), "equal", "equal widths", rtol=0, atol=1e-12)
        return
    mon.event("method_" + method)
    if method == "residual":
        mon.event("sub_" + sub)
    dt = 1e-6 if s.dmat == "symbolic" else 1e-4
    mag = max(Q[p].mag(i, "X", 1) * sp.scale_x.max() for p in range(sp.nph) for i in range(m.ns))
    if not mon.check(err is not None, "error_none", "reported error"):
        return
    mon.close(float(err), e.max(), "max_error", "largest residual over the phases", rtol=1e-5,
              atol=dt * mag, per_phase=e, method=method)
    for p in range(sp.nph):
        if e[p] < tol[p]:
            mon.event("phase_kept")
            mon.close(w[p], wd[p], "kept", "widths of a phase within tolerance", rtol=0, atol=1e-12,
                      phase=p, residual=e[p], tol=tol[p])
            continue
        mon.event("phase_refined")
        if method == "residual" and sub == "merge_split":
            if min(abs(seg[p] / tol[p] - 1)) < 1e-4:
                continue
            judge_merge_split(mon, seg[p], wd[p], tol[p], w[p])
        elif method == "residual" and sub == "no such method":
            mon.close(w[p], wd[p], "kept", "widths kept: there is no such method", rtol=0, atol=1e-12, phase=p)
        elif method == "residual":
            if any(r.size == 0 for r in R[p]):
                continue
            # towards the equal area widths of the residual curve, all by the same share
            r1 = np.linalg.norm(np.vstack(R[p]), axis=1)
            ea = ref_equal_area(r1, m.ns)
            d, g = ea - wd[p], w[p] - wd[p]
            if np.abs(d).max() < 1e-6:
                continue
            th = float(g @ d / (d @ d))
            mon.check(0.05 < th <= 1 + 1e-6, "ea_share", "widths move towards equal area", share=th,
                      old=wd[p], new=w[p], target=ea)
            mon.close(g, th * d, "ea_dir", "widths move towards equal area, all by the same share",
                      rtol=0, atol=2e-2 / len(r1), old=wd[p], new=w[p], target=ea)
        else:
            slope(s, mon, p, Q[p], wd[p], w[p], lbh[p], ubh[p])


def ref_equal_area(r, ns):
    a = 0.5 * (r[1:] + r[:-1])
    A = np.concatenate([[0], np.cumsum(a)])
    c = np.interp(np.arange(1, ns) / ns * A[-1], A, np.arange(len(r))) / (len(r) - 1)
    return np.diff(np.concatenate([[0], c, [1]]))


def slope(s, mon, p, q, old, new, lbh, ubh):
    m, sp = s.mesh, s.spec
    mon.check(new.max() / new.min() <= ubh / lbh * (1 + 1e-9), "limits",
              "fractions respect their limits (up to the common factor)", w=new, lbh=lbh, ubh=ubh)
    # steepest nodes; slopes per unit of the phase's own normalised segments
    D = np.zeros((m.N, sp.nu))
    for i in range(m.ns):
        D[m.seg(i)] = np.maximum(D[m.seg(i)], np.abs(q.val(i, m.x[i], "U", 1) * sp.scale_u))
    if np.abs(D).max() < 1e-7:
        mon.event("slope_flat")
        mon.close(new, old, "flat", "no control slope: widths are kept", rtol=0, atol=1e-9)
        return
    b = np.cumsum(new)[:-1]
    f = (q.t - q.T.t0) / (q.T.tf - q.T.t0)
    lo, hi = new.min() <= lbh * (1 + 1e-9), new.max() >= ubh * (1 - 1e-9)
    if lbh > 1e-4 or ubh < 1:
        mon.event("slope_clipped")
        return
    # with wide limits: boundaries at nodes, or equal division of the end stretches
    at = np.array([np.abs(f - x).min() < 1e-6 for x in b])
    mon.check(at.any(), "slope_nodes", "boundaries at times of steep slopes", boundaries=b, nodes=f)
    if np.allclose(new, old, rtol=0, atol=1e-9):
        # widths are only kept when nothing is steep
        mon.event("slope_kept")
        v = [np.linalg.norm(q.val(i, m.x[i][1:-1], "U", 1), axis=1) for i in range(m.ns)]
        v = np.concatenate(v)
        k = min(1.0, sp.scale_u.min()) * min(1.0, 1.0 / max(q.h(i) for i in range(m.ns)))
        if v.size == 0 or v.max() * k <= 2 * getattr(s.mp.mpopt_h_adaptive, "_THRESHOLD_SLOPE", 0.1):
            return
    n = len(b)
    ends = [(i, k) for i in range(n) for k in range(n - i)
            if at[i:n - k].all() and np.ptp(new[:i + 1]) < 1e-6 and np.ptp(new[m.ns - k - 1:]) < 1e-6]
    if not at.all() and not mon.check(
            ends, "slope_ends", "boundaries at nodes, equal division of the end stretches",
            boundaries=b, nodes=f):
        return
    steepest(s, mon, q, b, ([(0, 0)] if at.all() else []) + [e for e in ends if e != (0, 0)])


def steepest(s, mon, q, b, ends):
    """The boundaries (without the first i and last k) are the steepest interior nodes, and
    all steep ones if there are fewer of them; slopes per reference interval or per unit time,
    of scaled or user's controls"""
    m, sp = s.mesh, s.spec
    f = (q.t - q.T.t0) / (q.T.tf - q.T.t0)
    limit = getattr(s.mp.mpopt_h_adaptive, "_THRESHOLD_SLOPE", 0.1)
    at = [int(np.argmin(np.abs(f - x))) for x in b]
    for i, k in ends:
        got = set(at[i:len(b) - k])
        out = [j for j in range(1, m.N - 1) if j not in got]
        for sc in (sp.scale_u, np.ones(sp.nu)):
            for per_time in (False, True):
                lo, hi = np.full(m.N, np.inf), np.zeros(m.N)
                for g in range(m.ns):
                    v = np.linalg.norm(q.val(g, m.x[g], "U", 1) * sc
                                       / (q.h(g) if per_time else 1.0), axis=1)
                    sl = m.seg(g)
                    lo[sl], hi[sl] = np.minimum(lo[sl], v), np.maximum(hi[sl], v)
                # no node left out is certainly steeper than one that was taken
                rest = max([lo[j] for j in out] + [0.0])
                if min(hi[j] for j in got) >= rest * (1 - 1e-6) and (
                        (i, k) == (0, 0) or rest <= limit * (1 + 1e-6)):
                    mon.event("steepest_nodes")
                    mon.event("few_steep_nodes", (i, k) != (0, 0))
                    return
    mon.fail("steepest", "boundaries are not at the steepest control slopes", boundaries=at,
             low=lo, high=hi)
