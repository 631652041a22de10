"""Post-processed data on the collocation nodes"""
import numpy as np

from .. import ref
from ..trans import case_list, pick_phases, post_setup

PROPERTY = "C14"
RULE = ("original data of random decision vectors (random problems, 1-3 phases, scaling on/off) "
        "on random meshes and widths, for random phase selections and orders, scaled and "
        "unscaled, from several post-processors of one optimizer kept alive over later solves; "
        "non-trivial = distinct (problem, mesh, optimizer).")
ASSUMPTIONS = ["decision vector order X, U, t0, tf, a, widths (documented)",
               "times are in original units in scaled data too (documented)"]
NEED = {"data_compared": 500, "multi_phase": 20, "scaled": 50, "reordered_phases": 30,
        "kept_alive": 50, "kind_adaptive": 5, "with_parameters": 50, "older_solution": 1}


def cases(tier, seed):
    # the first case is the known finding "older solution" (see known_findings.txt)
    return [dict(probe="older_solution")] + case_list(tier, seed, salt=14, quick=800)


def expected(s, TR, TS, phases, scaling, m):
    T = [(TS if scaling else TR)[p] for p in phases]
    sp = s.spec
    x = np.vstack([q.X for q in T])
    u = np.vstack([q.U for q in T])
    t = np.concatenate([m.times(TR[p].t0, TR[p].tf, TR[p].wd) for p in phases])
    a = [np.asarray(q.A).reshape(sp.na) for q in T]
    return x, u, t, a


def compare(mon, got, want, ctx):
    x, u, t, a = got
    mon.close(x, want[0], "x", "states", rtol=1e-10, atol=1e-11, **ctx)
    mon.close(u, want[1], "u", "controls", rtol=1e-10, atol=1e-11, **ctx)
    mon.close(np.ravel(t), want[2], "t", "times", rtol=1e-9, atol=1e-10, **ctx)
    a = np.asarray(a, float)
    if len(want[3]) and want[3][0].size:
        A = np.concatenate(want[3])
        H = np.stack(want[3], 1)
        if a.shape == H.shape and not (a.ndim == 2 and a.shape[1] == 1):
            mon.close(a, H, "a", "parameters", rtol=1e-10, atol=1e-11, **ctx)
        else:
            mon.close(a.ravel(), A, "a", "parameters", rtol=1e-10, atol=1e-11, **ctx)


def older(mon):
    """A solution processed after a later solve with other widths"""
    from .. import sut

    sut.reset()
    o = sut.mp.OCP(n_states=1, n_controls=1, n_phases=1)
    o.dynamics[0] = lambda x, u, t: [u[0]]
    with mon.sut("solve, process_results"):
        opt = sut.mp.mpopt(o, 2, 3, "LGR")
        m = ref.Mesh("LGR", [3, 3], -1, 1)
        z = np.random.default_rng(14).uniform(-1, 1, 2 * 7 + 2)
        z[-2:] = 1, 3
        sut.CAP.reset("fake", responder=lambda a, b: z)
        w = [[0.25, 0.75], [0.6, 0.4]]
        sol = [opt.solve(mpopt_options={"nlp_sw_params": list(q)}) for q in w]
        post = opt.process_results(sol[0], plot=False, residual_dx=False)
        x, u, t, a = post.get_data(interpolate=False)
        now = opt.process_results(sol[1], plot=False, residual_dx=False).get_data(interpolate=False)
    mon.event("older_solution")
    T = [m.times(1.0, 3.0, np.array(q)) for q in w]
    mon.close(np.ravel(x), z[:7], "x", "states of an earlier solution", rtol=1e-10, atol=1e-11)
    mon.close(np.ravel(u), z[7:14], "u", "controls of an earlier solution", rtol=1e-10, atol=1e-11)
    mon.close(np.ravel(now[2]), T[1], "t", "times of the latest solution", rtol=1e-9, atol=1e-10)
    t = np.ravel(t)
    if t.shape == T[1].shape and np.allclose(t, T[1], rtol=1e-9, atol=1e-10):
        mon.fail("older_solution", "times of the earlier solution are those of the later widths",
                 got=t, want=T[0])
    else:
        mon.close(t, T[0], "t", "times of an earlier solution", rtol=1e-9, atol=1e-10)


def run(case, mon):
    if "probe" in case:
        return older(mon)
    s = post_setup(case, mon)
    rng, m, sp = s.rng, s.mesh, s.spec
    mon.event("with_parameters", sp.na > 0)
    held = []
    for rep in range(2):
        if rep:
            # another solution, other widths, same optimizer
            s.again_solved(1)
        TR, TS = s.trajs(), s.trajs(scaled=True)
        for scaling in (False, True):
            with mon.sut("process_results"):
                post = s.opt.process_results(s.sol, plot=False, scaling=scaling,
                                             residual_dx=bool(rng.uniform() < 0.3))
            held.append((post, TR, TS, scaling))
            check_post(s, mon, post, TR, TS, scaling, rng, m, sp)
    # earlier post-processors still describe their own solution
    for post, TR, TS, scaling in held[:2]:
        mon.event("kept_alive")
        check_post(s, mon, post, TR, TS, scaling, rng, m, sp, n=1)


def check_post(s, mon, post, TR, TS, scaling, rng, m, sp, n=2):
    allp = list(range(sp.nph))
    sels = [allp] + [pick_phases(rng, sp.nph) for _ in range(n)]
    for ph in sels:
        mon.event("data_compared")
        mon.event("scaled", scaling)
        mon.event("reordered_phases", ph != sorted(ph))
        want = expected(s, TR, TS, ph, scaling, m)
        ctx = dict(phases=ph, scaling=scaling, kind=s.kind)
        with mon.sut("get_original_data"):
            g1 = post.get_original_data(list(ph))
            g2 = post.get_data(phases=list(ph), interpolate=False)
        compare(mon, g1, want, ctx)
        compare(mon, g2, want, ctx)
    with mon.sut("get_data of all phases"):
        g = post.get_data()
    compare(mon, g, expected(s, TR, TS, allp, scaling, m), dict(phases="default", scaling=scaling))
    p = int(rng.integers(0, sp.nph))
    with mon.sut("get_trajectories"):
        g = post.get_trajectories(p)
    compare(mon, g, expected(s, TR, TS, [p], scaling, m), dict(phases=[p], scaling=scaling))
