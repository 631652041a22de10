"""Evaluation grids"""
import numpy as np

from .. import gen
from ..trans import case_list, check_grid, post_setup

PROPERTY = "C19"
RULE = ("evaluation grids of every type for every phase of solved random problems with random "
        "widths, and the mapping of random increasing phase points (on boundaries, clustered, "
        "few, many) to segments for random width vectors; non-trivial = distinct (mesh, widths).")
ASSUMPTIONS = ["points exactly on a segment boundary belong to the earlier segment or, up to "
               "round-off, to the start of the later one"]
NEED = {"grids": 500, "mapped_points": 5000, "boundary_points": 200, "multi_phase": 20,
        "roundoff_sums": 20}


def cases(tier, seed):
    return case_list(tier, seed, salt=19, quick=700)


def run(case, mon):
    s = post_setup(case, mon, kinds=("mpopt", "adaptive"), kind_p=(0.8, 0.2),
                   spec_opts=dict(nx=1, nu=1), max_seg=7)
    own(s, mon)
    if s.again_solved():
        own(s, mon)
    mapping(s, mon)


def own(s, mon):
    rng, m, sp = s.rng, s.mesh, s.spec
    TR = s.trajs()
    for p in range(sp.nph):
        wd = TR[p].wd
        for g in ("fixed", "mid-points", "spectral"):
            use_default = rng.uniform() < 0.3
            if use_default:
                s.opt.grid_type = [str(rng.choice(["fixed", "mid-points", "spectral"]))
                                   for _ in range(sp.nph)]
                s.opt.grid_type[p] = g
            with mon.sut("get_residual_grid_taus"):
                taus = s.opt.get_residual_grid_taus(p) if use_default else \
                    s.opt.get_residual_grid_taus(phase=p, grid_type=g)
            mon.event("grids")
            check_grid(mon, m, wd, taus, g)


def mapping(s, mon):
    rng = s.rng
    for rep in range(8):
        ns = int(rng.integers(1, 9))
        w = gen.make_widths(rng, ns, 1, floor=float(rng.choice([0.002, 0.05, 0.3])))[0]
        if rng.uniform() < 0.3:
            w = np.full(ns, 1.0 / ns)
        if rng.uniform() < 0.3:
            w = w * (1 + rng.uniform(-1, 1) * 3e-16)
        c = np.concatenate([[0], np.cumsum(w)])
        mon.event("roundoff_sums", c[-1] != 1.0)
        tau0, tau1 = [(0.0, 1.0), (-1.0, 1.0), (-2.0, 0.5)][int(rng.integers(0, 3))]
        L = tau1 - tau0
        k = int(rng.integers(0, 30))
        y = np.sort(rng.uniform(0, 1, k))
        style = rng.uniform()
        if style < 0.3:
            y = np.linspace(0, 1, k + 2)
        elif style < 0.5:
            y = np.sort(np.concatenate([y, c[1:-1]]))
        elif style < 0.7 and k:
            j = int(rng.integers(0, ns))
            y = np.sort(c[j] + w[j] * rng.uniform(0, 1, k))
        y = np.unique(np.clip(y, 0, 1))
        if rng.uniform() < 0.5:
            y = np.unique(np.concatenate([y, [1.0]]))
        mon.event("boundary_points", int(np.isin(y, c[1:-1]).sum()))
        nodes = tau0 + L * y
        arg_w = w if rng.uniform() < 0.6 else w.tolist()
        with mon.sut("mapping points to segments"):
            T = s.mp.mpopt.compute_interpolation_taus_corresponding_to_original_grid(
                nodes.copy(), arg_w, tau0=tau0, tau1=tau1)
        mon.nontrivial("map", w, y)
        if not mon.check(len(T) == ns, "map_segments", "one list per segment", n=len(T)):
            continue
        T = [np.ravel(np.asarray(t, float)) for t in T]
        e = 1e-9 / w.min()
        back = []
        for i, t in enumerate(T):
            z = (t - tau0) / L
            mon.check(z.size == 0 or (z.min() >= -e and z.max() <= 1 + e), "map_inside",
                      "mapped points inside the segment", z=z, seg=i, widths=w)
            back.append(c[i] + w[i] * z)
        back = np.concatenate(back)
        want = y[y > 1e-13]
        if len(y) and 0 < y[0] <= 1e-13:
            continue
        mon.event("mapped_points", len(want))
        mon.close(back, want, "map", "every point but the start is mapped once, in order", rtol=0,
                  atol=1e-9, widths=w, ns=ns)
