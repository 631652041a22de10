"""Interpolated data"""
import numpy as np

from .. import colloc
from ..trans import PhaseRef, arr, case_list, check_grid, own_grids, pick_phases, post_setup, random_nodes
from .c14 import compare, expected

PROPERTY = "C15"
RULE = ("interpolated data of random decision vectors on random meshes and widths, default grid "
        "and random points per segment (different counts, none, the nodes themselves), random "
        "phase selections and orders, scaled and unscaled; non-trivial = distinct (problem, "
        "mesh, optimizer).")
ASSUMPTIONS = ["decision vector order X, U, t0, tf, a, widths (documented)",
               "on the default grid the point in a segment is recovered from the returned time"]
NEED = {"default_grids": 300, "user_grids": 300, "multi_phase": 20, "at_nodes": 100,
        "multi_segment": 50, "single_phase": 300,
        "point_sets": 1000, "halved": 200}


def cases(tier, seed):
    return case_list(tier, seed, salt=15, quick=700)


def run(case, mon):
    s = post_setup(case, mon)
    judge(s, mon)
    if s.again_solved():
        judge(s, mon)


def judge(s, mon):
    rng, m, sp = s.rng, s.mesh, s.spec
    TR, TS = s.trajs(), s.trajs(scaled=True)
    scaling = bool(rng.uniform() < 0.4)
    with mon.sut("process_results"):
        post = s.opt.process_results(s.sol, plot=False, scaling=scaling, residual_dx=False)
    Q = [PhaseRef(m, T) for T in TR]
    V = TS if scaling else TR
    tol = 1e-7 if s.dmat == "symbolic" else 1e-6
    for rep in range(3):
        ph = pick_phases(rng, sp.nph) if rep else list(range(sp.nph))
        with mon.sut("get_interpolated_data"):
            x, u, t, a = post.get_data(phases=list(ph), interpolate=True)
        mon.event("default_grids")
        t = np.ravel(t)
        n = len(t) // len(ph)
        if not mon.check(len(t) == n * len(ph) and n > 1, "count", "points per phase", n=len(t)):
            continue
        if not mon.check(x.shape == (len(t), sp.nx) and u.shape == (len(t), sp.nu), "shape",
                         "shape of the interpolated data", x=x.shape, u=u.shape, t=len(t)):
            continue
        for k, p in enumerate(ph):
            sl = slice(k * n, (k + 1) * n)
            check_default(mon, Q[p], V[p], t[sl], x[sl], u[sl], tol, p, m)
        check_params(mon, a, [V[p].A for p in ph])
    for rep in range(3):
        ph = pick_phases(rng, sp.nph)
        taus = []
        for i in range(m.ns):
            k = int(rng.integers(0, 6)) if rep < 2 else None
            taus.append(m.x[i].copy() if k is None else
                        m.tau0 + m.len * np.sort(rng.uniform(0, 1, k)))
        if sum(map(len, taus)) == 0:
            taus[0] = np.array([m.tau1])
        if rep == 1 and rng.uniform() < 0.5:
            taus = colloc.echo(rng, taus, (m.tau0, m.tau1), 0.5)
        mon.event("at_nodes", rep == 2)
        mon.event("user_grids")
        with mon.sut("get_interpolated_data at given points"):
            x, u, t, a = post.get_interpolated_data(list(ph), taus=[q.copy() for q in taus])
        wt = np.concatenate([Q[p].time(i, taus[i]) for p in ph for i in range(m.ns)])
        mon.close(np.ravel(t), wt, "user_t", "times of the given points", rtol=1e-8, atol=1e-9)
        for got, what in ((x, "X"), (u, "U")):
            w = np.vstack([(_val(m, V[p], i, taus[i], what)) for p in ph for i in range(m.ns)])
            mon.close(got, w, "user_" + what, "values at the given points", rtol=0,
                      atol=tol * max(1.0, np.abs(w).max()), phases=ph,
                      counts=[len(q) for q in taus])


    single_phase(s, mon, Q)
    grids(mon, rng, m, post)


def single_phase(s, mon, Q):
    """Scaled values and derivatives on the optimizer's own grids or at given points"""
    import matplotlib.pyplot as plt

    rng, m, sp = s.rng, s.mesh, s.spec
    p = int(rng.integers(0, sp.nph))
    own = own_grids(s)
    nodes = random_nodes(rng, s, 0, 5)[p]
    way = int(rng.integers(0, 4))
    kw, g = {}, own[p]
    if way == 0:
        kw["target_nodes"] = [q.copy() for q in nodes]
    elif way == 1:
        g = kw["grid_type"] = str(rng.choice(["fixed", "mid-points", "spectral"]))
    draw = rng.uniform() < 0.03
    if draw:
        kw["options"] = {"plot": True}
    if way:
        s.opt._MAX_GRID_POINTS = max(m.orders) + int(rng.integers(0, 4))
    mon.event("single_phase")
    with mon.sut("interpolate_single_phase"):
        x, u, t, a, dx, du, taus, t0, tf = s.opt.interpolate_single_phase(s.sol, p, **kw)
    if draw:
        plt.close("all")
    q, T = Q[p], Q[p].T
    if way:
        nodes = [np.ravel(np.asarray(k, float)) for k in taus]
        check_grid(mon, m, T.wd, nodes, g, 1e-7)
    else:
        for k, w in zip(taus, nodes):
            mon.close(np.ravel(k), w, "single_nodes", "the points asked for", rtol=0, atol=1e-12)
    base = 1e-7 if s.dmat == "symbolic" else 1e-6
    mon.close(np.ravel(arr(t)), np.concatenate([q.time(i, k) for i, k in enumerate(nodes)]), "single_t",
              "times of the points", rtol=1e-8, atol=1e-9)
    mon.close(np.ravel([np.ravel(t0)[0], np.ravel(tf)[0]]), [T.t0, T.tf], "single_ends", "phase start and end",
              rtol=1e-9, atol=1e-9)
    if sp.na:
        mon.close(np.ravel(arr(a)), np.ravel(T.A) * np.ravel(sp.scale_a), "single_a", "scaled parameters",
                  rtol=1e-9, atol=1e-10)
    for got, what, order, sc in ((x, "X", 0, sp.scale_x), (u, "U", 0, sp.scale_u), (dx, "X", 1, sp.scale_x),
                                 (du, "U", 1, sp.scale_u)):
        W, tol = [], 0.0
        sc = np.ravel(np.asarray(sc, float)) * np.ones(getattr(T, what).shape[1])
        for i, k in enumerate(nodes):
            if len(k):
                W.append(q.val(i, k, what, order) * sc)
            tol = max(tol, q.mag(i, what, order) * np.abs(sc).max(initial=0.0))
        W = np.vstack(W)
        got = arr(got)
        if mon.check(got.shape == W.shape, "single_shape", "one row per point", got=got.shape, want=W.shape):
            mon.close(got, W, "single_%s%d" % (what, order), "value on the segment polynomial", rtol=0,
                      atol=base * 10 ** order * max(1.0, tol), phase=p, orders=m.orders, scheme=s.scheme)


def grids(mon, rng, m, post):
    """Point sets offered for the interpolation"""
    i = int(rng.integers(0, m.ns))
    n = int(rng.integers(2, 90))
    x = m.x[i].copy()
    e = 1e-12 * (1 + m.len)
    with mon.sut("get_interpolation_taus"):
        a = np.ravel(post.get_interpolation_taus(n))
        b = np.ravel(post.get_interpolation_taus(n, x.copy(), "uniform"))
        c = np.ravel(post.get_interpolation_taus(n, x.copy(), "other"))
        d = np.ravel(post.get_interpolation_taus(n, None, "other"))
    mon.event("point_sets", 4)
    for k in (a, b, d):
        mon.close(k, m.tau0 + m.len * np.arange(n) / (n - 1.0), "uniform_taus", "equally spaced points",
                  rtol=0, atol=e)
    want = x
    while len(want) < min(n, 2) or (len(want) < n and len(want) < len(c)):
        want = np.sort(np.concatenate([want, (want[1:] + want[:-1]) / 2]))
    # halved until there are enough points; a bounded number of times
    mon.close(c, want, "halved_taus", "mid points added to the grid", rtol=0, atol=e, n=n, given=len(x))
    mon.check(len(c) >= n or (len(c) - 1) >= 32 * (len(x) - 1), "halved_few", "enough points", n=n, got=len(c))
    mon.event("halved", len(x) < n)


def check_params(mon, a, want):
    if not len(want[0]):
        return
    a = np.asarray(a, float)
    H, C = np.stack(want, 1), np.concatenate(want)
    if a.shape == H.shape:
        mon.close(a, H, "a", "parameters", rtol=1e-10, atol=1e-11)
    else:
        mon.close(a.ravel(), C, "a", "parameters", rtol=1e-10, atol=1e-11)


def _val(m, T, i, tau, what):
    from .. import ref

    M = ref.interp(m.x[i], tau) if len(tau) else np.zeros((0, len(m.x[i])))
    return M @ getattr(T, what)[m.seg(i)]


def check_default(mon, q, T, t, x, u, tol, p, m):
    span = q.b[-1] - q.b[0]
    e = 1e-9 * (1 + np.abs(q.b).max())
    mon.check(abs(t[0] - q.b[0]) <= e and abs(t[-1] - q.b[-1]) <= e, "cover",
              "interpolated data cover the phase", t=(t[0], t[-1]), phase=(q.b[0], q.b[-1]))
    mon.check(np.all(np.diff(t) >= -e), "increasing", "times increase", worst=np.diff(t).min())
    seg = q.locate(t)
    cnt = np.bincount(seg, minlength=m.ns)
    mon.check(cnt.min() >= 1, "gap", "every segment is sampled", counts=cnt)
    mon.event("interpolated_points", len(t))
    for i in range(m.ns):
        # times on a boundary belong to both segments (continuous); stay inside
        k = np.where(seg == i)[0]
        if not len(k):
            continue
        tau = np.clip(q.tau(i, t[k]), m.tau0, m.tau1)
        for got, what in ((x, "X"), (u, "U")):
            w = _val(m, T, i, tau, what)
            # the recovered point is uncertain by the rounding of the time
            un = 1e-11 * (1 + np.abs(q.b).max()) / max(1e-9, q.b[i + 1] - q.b[i]) * m.orders[i] ** 2
            mon.close(got[k], w, "value_" + what, "interpolated value", rtol=0,
                      atol=(tol + un) * max(1.0, np.abs(w).max(), np.abs(getattr(T, what)).max()),
                      phase=p, seg=i)
