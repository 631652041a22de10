"""Time grid"""
import casadi as ca
import numpy as np

from .. import gen
from ..trans import case_list, post_setup

PROPERTY = "C11"
RULE = ("times handed to the user's running cost, path constraint and dynamics functions of every "
        "phase while the NLP is built, evaluated at random decision and width vectors, and the "
        "times in post-processed data and residuals; random problems, meshes, widths, start "
        "times, time scales, optimizer classes; non-trivial = distinct (problem, mesh, optimizer).")
ASSUMPTIONS = ["decision vector order X, U, t0, tf, a, widths (documented)"]
NEED = {"user_times": 3000, "multi_phase": 20, "kind_adaptive": 5, "post_times": 1000,
        "nonzero_start": 20}


def cases(tier, seed):
    return case_list(tier, seed, salt=11, quick=800)


class Recorder:
    def __init__(self):
        self.t = {}

    def wrap(self, fn, key):
        def f(x, u, t, *a):
            if isinstance(t, ca.SX) and not ca.SX(t).is_constant():
                self.t.setdefault(key, []).append(t)
            return fn(x, u, t, *a)
        return f


def run(case, mon):
    rec = Recorder()

    def on_ocp(ocp):
        for p in range(ocp.n_phases):
            ocp.dynamics[p] = rec.wrap(ocp.dynamics[p], ("dynamics", p))
            ocp.running_costs[p] = rec.wrap(ocp.running_costs[p], ("running cost", p))
            ocp.path_constraints[p] = rec.wrap(ocp.path_constraints[p], ("path constraint", p))

    s = post_setup(case, mon, on_ocp=on_ocp, again=lambda: rec.t.clear())
    sp = s.spec
    mon.event("nonzero_start", abs(sp.t00[0, 0]) > 0)
    user_times(s, mon, rec)
    # the solution's own times
    own_times(s, mon)
    if s.again_solved():
        own_times(s, mon)


def user_times(s, mon, rec):
    m, sp, rng = s.mesh, s.spec, s.rng
    nlp = s.rec.nlp
    par = nlp["p"] if "p" in nlp else ca.SX(0, 1)
    keys = sorted(rec.t)
    try:
        fn = ca.Function("t", [nlp["x"], par], [ca.vertcat(*rec.t[k]) for k in keys])
    except (RuntimeError, NotImplementedError):
        fn = None
    if not keys or fn is None:
        # the functions were not called with expressions of the decision vector (but, ex., once to
        # make a CasADi function of them): the times show in what the NLP imposes
        mon.event("indirect")
        own = ("dynamics", "path") if s.kind != "adaptive" else ("dynamics", "path", "midx", "midres")
        s.compare_rows(own)
        mon.event("user_times", m.N * sp.nph)
        return
    for _ in range(3):
        z = s.ref.random_z(rng)
        w = gen.make_widths(rng, m.ns, sp.nph)
        out = fn(z, s.p(w) if s.p(w) is not None else [])
        out = [out] if len(keys) == 1 else out
        TR = s.ref.decode(z, w)
        for k, v in zip(keys, out):
            T = TR[k[1]]
            want = m.times(T.t0, T.tf, T.wd)
            got = np.array(v).ravel()
            mon.event("user_times", len(got))
            e = 1e-9 * (1 + np.abs(want).max())
            d = np.abs(got[:, None] - want[None, :])
            mon.check(np.all(d.min(axis=0) <= e), "user_times", "every node time is used",
                      fn=k[0], phase=k[1], worst=d.min(axis=0).max())
            if k[0] == "dynamics" and s.kind == "adaptive":
                # evaluated at the mid points too
                mon.check(got.min() >= T.t0 - e and got.max() <= T.tf + e, "user_times",
                          "times stay inside the phase", fn=k[0], phase=k[1])
            else:
                mon.check(np.all(d.min(axis=1) <= e), "user_times",
                          "times given to the user's function are those of the nodes", fn=k[0], phase=k[1],
                          kind=s.kind, got=np.sort(got), want=want)


def own_times(s, mon):
    rng, m, sp = s.rng, s.mesh, s.spec
    TR = s.trajs()
    want = [m.times(T.t0, T.tf, T.wd) for T in TR]
    with mon.sut("post-processing"):
        post = s.opt.process_results(s.sol, plot=False, residual_dx=True)
        got = [np.ravel(post.get_original_data([p])[2]) for p in range(sp.nph)]
        ti, _ = s.opt.get_dynamics_residuals(s.sol, nodes=[[x.copy() for x in m.x]] * sp.nph)
    for p in range(sp.nph):
        mon.event("post_times", len(want[p]))
        e = 1e-9 * (1 + np.abs(want[p]).max())
        mon.close(got[p], want[p], "post_times", "times of the post-processed data", rtol=0, atol=e)
        mon.check(np.all(np.diff(got[p]) > 0), "post_increasing", "times increase", t=got[p])
        T = TR[p]
        b = T.t0 + (T.tf - T.t0) * np.concatenate([[0], np.cumsum(T.wd)])
        if got[p].shape == want[p].shape:
            mon.close(got[p][m.start + [m.N - 1]], b, "boundaries",
                      "segment boundaries at the cumulative widths", rtol=0, atol=e)
        for i in range(m.ns):
            mon.close(np.ravel(np.asarray(ti[p][i], float)), want[p][m.seg(i)], "residual_times",
                      "times of residual points at the nodes", rtol=0, atol=e, phase=p, seg=i)
