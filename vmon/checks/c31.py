"""Plots: every drawn line is compared with the data the library returns"""
import numpy as np

from ..trans import PhaseRef, arr, case_list, pick_phases, post_setup, random_nodes

PROPERTY = "C31"
RULE = ("lines drawn by every plotting entry point (plot_phase(s), plot_x, plot_u, plot_all, "
        "plot_residuals, process_results, residual functions with plot=True) for random decision "
        "vectors, phase and component selections, given and new axes, compared with the reference "
        "trajectories and the returned residuals; non-trivial = distinct (problem, mesh, optimizer).")
ASSUMPTIONS = ["times are in original units in scaled plots too", "decision vector order X, U, t0, tf, a, widths (documented)",
               "residual panels of plot_phases may show all phases or only those requested"]
NEED = {"lines": 2000, "panels_residual": 60, "given_axes": 40, "interpolated": 60,
        "phase_groups": 15, "empty_segments": 10, "ragged": 20, "many_components": 4, "evolution": 10, "axes_alone": 20}


def cases(tier, seed):
    out = case_list(tier, seed, salt=31, quick=220, thorough=3000)
    for k, c in enumerate(out):
        if k % 15 == 7:
            c["spec"] = dict(nx=16 if k % 2 else 2, nu=1 if k % 2 else 17, nph=1)
    return out


def lines(ax):
    return [(np.asarray(l.get_xdata(), float).ravel(), np.asarray(l.get_ydata(), float).ravel())
            for l in ax.get_lines()]


def same(a, b, tol):
    return (a[0].shape == b[0].shape and a[1].shape == b[1].shape
            and np.all(np.abs(a[0] - b[0]) <= tol * (1 + np.abs(b[0])))
            and np.all(np.abs(a[1] - b[1]) <= tol * (1 + np.abs(b[1]))))


def compare(mon, ax, want, key, tol=1e-9, **ctx):
    """Drawn lines == wanted lines; the same curve may be drawn repeatedly (marks and line)"""
    got = lines(ax)
    mon.event("lines", len(got))
    ok = True
    for k, w in enumerate(want):
        w = (np.asarray(w[0], float).ravel(), np.asarray(w[1], float).ravel())
        ok &= mon.check(any(same(g, w, tol) for g in got), key, "data of component %d are drawn" % k,
                        want=w, drawn=[(len(g[0]), g) for g in got[:4]], **ctx)
    for g in got:
        ok &= mon.check(any(same(g, (np.asarray(w[0], float).ravel(), np.asarray(w[1], float).ravel()), tol)
                            for w in want), key + "_extra", "nothing else is drawn", drawn=g, **ctx)
    return ok


def cols(t, v):
    v = np.asarray(v, float)
    t = np.asarray(t, float).ravel()
    return [(t, v[:, i]) for i in range(v.shape[1])]


def comp_lines(ti, res, phases):
    """components of residuals against time"""
    t = np.concatenate([np.ravel(arr(q)) for p in phases for q in ti[p] if q is not None] or [[]])
    r = [np.asarray(v, float).reshape(len(v), -1) for p in phases for v in res[p] if v is not None and len(v)]
    r = np.concatenate(r) if r else np.zeros((0, 1))
    return t, r


def norm_line(ti, res, phases):
    t, r = comp_lines(ti, res, phases)
    return [(t, np.sqrt((r ** 2).sum(axis=1)))]


def snapshot(v):
    if isinstance(v, dict):
        return {k: snapshot(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [snapshot(x) for x in v]
    return None if v is None else arr(v).copy() if not isinstance(v, (str, bool)) else v


def equal(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    return a == b


def run(case, mon):
    import matplotlib.pyplot as plt

    s = post_setup(case, mon, max_seg=4, pmax=5, on_ocp=lambda ocp: groups(case, ocp))
    rng, m, sp = s.rng, s.mesh, s.spec
    if max(sp.nx, sp.nu) > 15:
        mon.event("many_components")
    plt.close("all")
    rx, rdx = [(False, True), (True, False), (True, True), (False, False)][int(rng.integers(0, 4))]
    kinds = ["fixed", "mid-points", "spectral"]
    s.opt.grid_type = [str(rng.choice(kinds)) for _ in range(sp.nph)]
    scaling = bool(rng.uniform() < 0.3)
    with mon.sut("process_results(plot)"):
        post = s.opt.process_results(s.sol, plot=True, residual_x=rx, residual_dx=rdx, scaling=scaling)
    sol0 = snapshot(dict(x=s.sol["x"]))
    R = {}
    with mon.sut("residuals"):
        if rx:
            _, _, ti, r = s.opt.get_states_residuals(s.sol)
            R["x"] = (ti, r)
        if rdx:
            ti, r = s.opt.get_dynamics_residuals(s.sol)
            R["dx"] = (ti, r)
    for k in R:
        n = [len(np.ravel(arr(q))) for ph in R[k][0] for q in ph if q is not None]
        mon.event("ragged", len(set(n)) > 1)
        mon.event("empty_segments", any(q is None or len(np.ravel(arr(q))) == 0
                                        for ph in R[k][0] for q in ph))
    D = Data(s, mon, post, scaling)
    gr = [list(np.atleast_1d(g)) for g in s.ocp.phases_to_plot]
    mon.event("phase_groups", len(gr) > 1)
    figs = [plt.figure(k) for k in plt.get_fignums()]
    if mon.check(len(figs) == len(gr), "figures", "one figure per group of phases",
                 got=len(figs), groups=gr):
        for f, g in zip(figs, gr):
            phases_figure(mon, D, f.axes, g, True, R, "process_results")
    snap = snapshot(dict(r=post.residuals))
    plt.close("all")
    for rep in range(4):
        what = ["phases", "x", "u", "all", "residuals", "single"][int(rng.integers(0, 6))]
        ph = pick_phases(rng, sp.nph)
        if rng.uniform() < 0.3:
            ph = tuple(ph)
        interp = bool(rng.uniform() < 0.5)
        mon.event("interpolated", interp)
        own = bool(rng.uniform() < 0.5)
        fig = axs = None
        ctx = dict(what=what, phases=ph, interpolate=interp)
        if what == "phases":
            res = bool(rng.uniform() < 0.5) and bool(R)
            if own and not res:
                fig, axs = plt.subplots(2, 1)
            kw = dict(interpolate=interp, residuals=res, fig=part(mon, rng, fig), axs=axs)
            if rng.uniform() < 0.25:
                ph = list(D.default)  # the first group is the default
                if rng.uniform() < 0.5:
                    kw["phases"] = None
            else:
                kw["phases"] = ph
            ctx["phases"] = ph
            with mon.sut("plot_phases"):
                f, a = post.plot_phases(**kw)
            phases_figure(mon, D, list(np.ravel(a)), list(ph), interp, R if res else {}, "plot_phases")
            given(mon, fig, axs, f, a)
            if len(ph) == 1 and not own:
                plt.close("all")
                fig = axs = None
                with mon.sut("plot_phase"):
                    if ph[0] == 0 and interp and rng.uniform() < 0.5:
                        r = post.plot_phase()
                    elif interp and rng.uniform() < 0.5:
                        r = post.plot_phase(phase=ph[0])
                    else:
                        if not R and rng.uniform() < 0.5:
                            fig, axs = plt.subplots(2, 1)
                        r = post.plot_phase(ph[0], interp, fig=part(mon, rng, fig), axs=axs)
                if mon.check(len(plt.get_fignums()) == 1, "figures", "plot_phase draws one figure"):
                    phases_figure(mon, D, plt.gcf().axes, list(ph), interp, R, "plot_phase")
                if mon.check(isinstance(r, tuple) and len(r) == 2, "returned",
                             "plot_phase returns the figure and its axes", got=type(r).__name__):
                    given(mon, fig, axs, *r)
                    mon.check(list(np.ravel(r[1])) == list(plt.gcf().axes) and
                              r[0] in (None, plt.gcf()), "returned",
                              "the figure and axes returned are the ones drawn on")
                    mon.event("plot_phase_returned")
        elif what in "xu":
            n = sp.nx if what == "x" else sp.nu
            dims = None
            if rng.uniform() < 0.7:
                dims = pick_phases(rng, n)
                if rng.uniform() < 0.5:
                    dims = [pick_phases(rng, n) for _ in range(int(rng.integers(1, 4)))]
            nax = len(dims) if dims and isinstance(dims[0], list) else 1
            if own:
                fig, axs = plt.subplots(nax, 1)
            use = ph if rng.uniform() < 0.7 else None
            axis = int(rng.integers(0, 2))
            ctx.update(dims=dims, axis=axis, phases=use)
            kw = dict(dims=dims, axis=axis, interpolate=interp, fig=part(mon, rng, fig), axs=axs)
            if use is not None:
                kw["phases"] = use
            with mon.sut("plot_" + what):
                f, a = post.plot_x(**kw) if what == "x" else post.plot_u(**kw)
            given(mon, fig, axs, f, a)
            use = D.default if use is None else list(use)
            L = dims if nax > 1 else [dims[0] if dims and isinstance(dims[0], list) else
                                      dims if dims else list(range(n))]
            A = list(np.ravel(a))
            if not mon.check(len(A) == nax, "axes", "one subplot per group of components",
                             got=len(A), want=nax):
                continue
            if fig is None and nax > 1:
                mon.event("layouts")
                c = [(b.x0 + b.x1, b.y0 + b.y1) for b in (ax.get_position() for ax in A)]
                dx, dy = np.diff(c, axis=0).T
                mon.check(np.all(np.abs(dx) < 1e-9) and np.all(dy < 0) if axis == 1 else
                          np.all(np.abs(dy) < 1e-9) and np.all(dx > 0), "layout",
                          "the groups are stacked vertically (axis=1) or horizontally (axis=0), in their order",
                          axis=axis, centres=c)
            for ax, d in zip(A, L):
                w = []
                t, v = D.get(use, interp, what)
                w += cols(t, v[:, d])
                if what == "u" and interp:
                    t, v = D.get(use, False, what)
                    w += cols(t, v[:, d])
                compare(mon, ax, w, "plot_" + what, **ctx)
        elif what in ("all", "single"):
            t, x = D.get(list(ph), interp, "x")
            _, u = D.get(list(ph), interp, "u")
            xin, uin, tin = x.copy(), u.copy(), t.copy()
            if what == "all":
                if own:
                    fig, axs = plt.subplots(2, 1)
                with mon.sut("plot_all"):
                    kw = {} if rng.uniform() < 0.6 else dict(tics=[None, ["-"], [".", "*"]][int(rng.integers(0, 3))])
                    f, a = s.mp.post_process.plot_all(xin, uin, tin, fig=part(mon, rng, fig), axs=axs,
                                                      legend=bool(rng.uniform() < 0.5), **kw)
                compare(mon, a[0], cols(t, x), "plot_all", **ctx)
                compare(mon, a[1], cols(t, u), "plot_all", **ctx)
            else:
                d = pick_phases(rng, sp.nx)
                if own:
                    fig, axs = plt.subplots(1, 1)
                with mon.sut("plot_single_variable"):
                    kw = {} if rng.uniform() < 0.6 else dict(tics=[None, ["-"], [".", "*"]][int(rng.integers(0, 3))])
                    f, a = s.mp.post_process.plot_single_variable(
                        xin, tin, d, name="v", axis=int(rng.integers(0, 2)), fig=part(mon, rng, fig), axs=axs, **kw)
                compare(mon, a, cols(t, x[:, d]), "plot_single", **ctx)
            given(mon, fig, axs, f, a)
            mon.check(np.array_equal(xin, x) and np.array_equal(uin, u) and np.array_equal(tin, t),
                      "data_changed", "plotting leaves its arguments alone")
        else:
            residuals(s, mon, rng, ph, own, plt)
        if own:
            mon.event("given_axes")
        plt.close("all")
    if s.kind == "h" and m.ns > 1:
        evolution(s, mon, rng, plt)
    mon.check(equal(snapshot(dict(r=post.residuals)), snap) and
              equal(snapshot(dict(x=s.sol["x"])), sol0), "data_changed",
              "plotting does not change the solution or the residuals")


def groups(case, ocp):
    rng = np.random.default_rng([case["seed"], 31])
    n = ocp.n_phases
    if n > 1 and rng.uniform() < 0.6:
        cut = int(rng.integers(1, n))
        ocp.phases_to_plot = [tuple(range(cut)), tuple(range(cut, n))]
        if rng.uniform() < 0.3:
            ocp.phases_to_plot = [(int(p),) for p in rng.permutation(n)]


ALONE = []


def part(mon, rng, fig):
    """The caller's axes may come without their figure"""
    del ALONE[:]
    if fig is not None and rng.uniform() < 0.3:
        mon.event("axes_alone")
        ALONE.append(fig)
        return None
    return fig


def given(mon, fig, axs, f, a):
    if fig is not None:
        mon.check((f is fig or f is None and fig in ALONE) and all(x is y for x, y in zip(np.ravel(a), np.ravel(axs))),
                  "given_axes", "the caller's figure and axes are used and returned")


class Data:
    """Reference trajectories of the solution (original and as returned when interpolated)"""

    def __init__(self, s, mon, post, scaling):
        self.s, self.mon, self.post, self.scaling = s, mon, post, scaling
        self.T = s.trajs()
        self.V = s.trajs(scaled=True) if scaling else self.T
        self.default = list(np.atleast_1d(s.ocp.phases_to_plot[0]))
        self.cache = {}

    def get(self, phases, interp, what):
        phases = [int(p) for p in phases]
        k = (tuple(phases), interp)
        if k not in self.cache:
            self.cache[k] = self.interpolated(phases) if interp else self.original(phases)
        t, x, u = self.cache[k]
        return t, (x if what == "x" else u)

    def original(self, phases):
        """Independent of the post processor"""
        x = np.concatenate([self.V[p].X for p in phases])
        u = np.concatenate([self.V[p].U for p in phases])
        t = np.concatenate([PhaseRef(self.s.mesh, self.T[p]).t for p in phases])
        return t, x, u

    def interpolated(self, phases):
        """On the grid the post processor chooses; values from the reference polynomials"""
        with self.mon.sut("get_data"):
            x, u, t, _ = self.post.get_data(phases=phases, interpolate=True)
        x, u, t = np.asarray(x, float), np.asarray(u, float), np.asarray(t, float).ravel()
        return t, x, u


def phases_figure(mon, D, axs, phases, interp, R, ctx):
    want = 2 + len(R)
    if not mon.check(len(axs) == want, "panels", "panels for states, controls and each residual",
                     got=len(axs), want=want, call=ctx):
        return
    phases = [int(p) for p in phases]
    for ax, what in zip(axs, "xu"):
        w = cols(*D.get(phases, False, what))
        if interp:
            w += cols(*D.get(phases, True, what))
        compare(mon, ax, w, "plot_phases_" + what, phases=phases, call=ctx)
    n = len(D.T)
    for ax, k in zip(axs[2:], [k for k in ("x", "dx") if k in R]):
        mon.event("panels_residual")
        opts = []
        for sel in (phases, list(range(n))):
            t, r = comp_lines(*R[k], sel)
            opts.append(cols(t, r))
        got = lines(ax)
        mon.event("lines", len(got))
        ok = any(len(got) == len(o) and all(any(same(g, w, 1e-9) for g in got) for w in o)
                 and all(any(same(g, w, 1e-9) for w in o) for g in got) for o in opts)
        mon.check(ok, "residual_panel", "residuals of the components against time", kind=k,
                  phases=phases, drawn=[(len(g[0]), g) for g in got[:3]], want=opts[0][:2], call=ctx)


def evolution(s, mon, rng, plt):
    """The h-adaptive optimizer draws the residuals of its iterations; results are unaffected"""
    opts = [dict(method="residual", sub_method="merge_split"), dict(method="residual", sub_method="equal_area"),
            dict(method="control_slope")][int(rng.integers(0, 3))]
    with mon.sut("get_segment_width_parameters"):
        w, e = s.opt.get_segment_width_parameters(s.sol, dict(opts))
        ti, r = s.opt.get_dynamics_residuals(s.sol)
    sel = [int(p) for g in s.ocp.phases_to_plot for p in np.atleast_1d(g)]
    s.opt.plot_residual_evolution = True
    for rep in range(2):
        with mon.sut("get_segment_width_parameters (plot_residual_evolution)"):
            w1, e1 = s.opt.get_segment_width_parameters(s.sol, dict(opts))
        mon.event("evolution")
        mon.close(np.ravel(w1), np.ravel(w), "evolution_widths", "drawing leaves the widths alone", rtol=0, atol=0)
        mon.close(float(e1), float(e), "evolution_error", "drawing leaves the error alone", rtol=0, atol=0)
        if mon.check(len(plt.get_fignums()) == 1 and len(plt.gcf().axes) == 1, "figures",
                     "all the iterations in one plot", figures=len(plt.get_fignums())):
            compare(mon, plt.gcf().axes[0], norm_line(ti, r, sel), "residual_evolution", phases=sel, **opts)
    s.opt.plot_residual_evolution = False
    plt.close("all")


def residuals(s, mon, rng, ph, own, plt):
    sp = s.spec
    fig = axs = None
    if own:
        fig, axs = plt.subplots(1, 1)
    nodes = random_nodes(rng, s, 0, 4, spread=True)
    if any(len(q) == 0 for p in nodes for q in p):
        mon.event("empty_segments")
    nodes = [[q.copy() for q in p] for p in nodes]
    k = int(rng.integers(0, 4))
    if k == 0:
        with mon.sut("get_states_residuals(plot)"):
            sub = list(ph) if rng.uniform() < 0.5 else None
            _, _, ti, r = s.opt.get_states_residuals(s.sol, phases=sub, nodes=nodes, plot=True,
                                                     fig=part(mon, rng, fig), axs=axs)
        sel = list(range(sp.nph)) if sub is None else sub
    elif k == 1:
        with mon.sut("get_dynamics_residuals(plot)"):
            ti, r = s.opt.get_dynamics_residuals(s.sol, nodes=nodes, plot=True, fig=part(mon, rng, fig), axs=axs)
        sel = list(range(sp.nph))
    elif k == 2:
        with mon.sut("get_state_second_derivative(plot)"):
            ti, r, _ = s.opt.get_state_second_derivative(s.sol, nodes=nodes, plot=True, fig=fig,
                                                         axs=axs)
        sel = list(range(sp.nph))
    else:
        with mon.sut("plot_residuals"):
            ti, r = s.opt.get_dynamics_residuals(s.sol, nodes=nodes)
            sel = list(ph)
            kw = {} if rng.uniform() < 0.6 else dict(tics=[None, ["-"], [".", "*"]][int(rng.integers(0, 3))],
                                                     name="r")
            f, a = s.mp.post_process.plot_residuals(
                ti, r, phases=[tuple(sel)] if rng.uniform() < 0.5 else sel, fig=part(mon, rng, fig), axs=axs, **kw)
        given(mon, fig, axs, f, a)
    mon.event("panels_residual")
    ax = axs if own else (plt.gcf().axes[0] if plt.gcf().axes else None)
    if not mon.check(ax is not None and len(plt.get_fignums()) == 1, "figures",
                     "one figure with the residuals", call=k):
        return
    # order of the phases in the curve does not matter
    for order in (sel, sorted(sel)):
        w = norm_line(ti, r, order)
        if any(same(g, (w[0][0], w[0][1]), 1e-9) for g in lines(ax)):
            break
    compare(mon, ax, w, "residual_norm", call=k, phases=sel)
