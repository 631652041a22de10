"""Segment widths as optimisation variables"""
import numpy as np

from ..trans import Setup, case_list

PROPERTY = "C23"
RULE = ("width sum, mid-point bound and mid-point residual rows, width bounds and post-processed "
        "widths of the direct adaptive optimizer, for random problems x meshes x random width "
        "limits and residual tolerances per phase; non-trivial = distinct (problem, mesh).")
ASSUMPTIONS = ["decision vector order X, U, t0, tf, a, widths per phase (documented)",
               "mid-point residual rows are weighted with the segment width (as the optimizer does)"]
NEED = {"problems_with_width_sum": 100, "problems_with_midres": 50, "problems_with_midx": 50,
        "problems_with_midu": 50, "multi_phase": 20, "posts_compared": 100}


def cases(tier, seed):
    return case_list(tier, seed, salt=23)


def run(case, mon):
    s = Setup(case, mon, kinds=("adaptive",), kind_p=(1.0,), respond="random")
    s.compare_rows(("width_sum", "midx", "midu", "midres"))
    # limits of the widths themselves
    lo, hi = s.ref.bounds()
    m, sp = s.mesh, s.spec
    for p in range(sp.nph):
        sl = slice((p + 1) * s.ref.nz_phase - m.ns, (p + 1) * s.ref.nz_phase)
        mon.close(s.call.inputs["lbx"][sl], lo[sl], "width_bounds", "lower width limits", rtol=1e-12)
        mon.close(s.call.inputs["ubx"][sl], hi[sl], "width_bounds", "upper width limits", rtol=1e-12)
    # the optimised widths are used afterwards
    z = np.asarray(s.sol["x"]).ravel()
    with mon.sut("post-processing"):
        post = s.opt.process_results(s.sol, plot=False, residual_dx=False)
        _, _, t, _ = post.get_data()
    want = np.concatenate([m.times(T.t0, T.tf, T.wd) for T in s.ref.decode(z)])
    mon.event("posts_compared")
    mon.close(np.ravel(t), want, "post_times", "times for the optimised widths", rtol=1e-9, atol=1e-9)
    ti, _ = residuals(s, mon)
    TR = s.ref.decode(z)
    for p, T in enumerate(TR):
        b = T.t0 + (T.tf - T.t0) * np.concatenate([[0], np.cumsum(T.wd)])
        for i in range(m.ns):
            v = np.ravel(np.asarray(ti[p][i], dtype=float))
            if v.size:
                mon.check(np.all(v >= b[i] - 1e-9) and np.all(v <= b[i + 1] + 1e-9),
                          "residual_times", "residual points in their segments", t=v,
                          bounds=b[i:i + 2], phase=p, seg=i)


def residuals(s, mon):
    with mon.sut("get_dynamics_residuals"):
        return s.opt.get_dynamics_residuals(s.sol)
