"""Shared driver of the transcription monitors: build a random problem and mesh, let
the library create (and "solve") its NLP behind the captured solver boundary, and
compare what reached the solver with the reference model."""
import casadi as ca
import numpy as np

from . import colloc, gen, ref
from .monitor import Abort

CATS = ("dynamics", "path", "terminal", "slope", "midu", "continuity", "link_x",
        "link_u", "link_t", "width_sum", "midx", "midres")


def case_list(tier, seed, quick=1600, thorough=20000, salt=0, **extra):
    n = quick if tier == "quick" else thorough
    ss = np.random.SeedSequence([seed, 7919, salt])
    return [dict(extra, seed=int(x)) for x in ss.generate_state(n)]


class Setup:
    """Everything one case needs; built deterministically from case["seed"]"""

    def __init__(self, case, mon, spec_opts=None, kinds=("mpopt", "h", "adaptive"),
                 kind_p=(0.6, 0.15, 0.25), max_seg=4, pmax=6, taus=True, dmat=None,
                 pmin=1, solve=True, respond="guess", use_widths=False, on_ocp=None,
                 defaults=True, large=True, warm=True, again=True):
        from . import sut

        self.mp, self.CAP = sut.mp, sut.CAP
        self.mon = mon
        rng = self.rng = np.random.default_rng(case["seed"])
        so = dict(links="random" if rng.uniform() < 0.3 else "default", defaults=defaults)
        big = rng.uniform() if large else 1.0
        if big < 0.06:
            so["max_ph"] = 6
        elif big < 0.1:
            so.update(max_nx=8, max_nu=6, max_na=6, max_con=7, max_ph=2)
        so.update(spec_opts or {})
        so.update(case.get("spec", {}))
        self.spec = gen.make_spec(rng, **so)
        if 0.1 <= big < 0.18:
            self.orders = gen.make_grid(rng, max_seg=12, pmin=pmin, pmax=max(pmin, 3))
        elif 0.18 <= big < 0.24:
            self.orders = gen.make_grid(rng, max_seg=3, pmin=pmin, pmax=11)
        else:
            self.orders = gen.make_grid(rng, max_seg=max_seg, pmin=pmin, pmax=pmax)
        self.scheme = gen.SCHEMES[int(rng.integers(0, 3))]
        self.tau = [(-1, 1), (-1, 1), (0, 1), (-2.0, 0.5)][int(rng.integers(0, 4 if taus else 1))]
        self.dmat = dmat or ("numerical" if rng.uniform() < 0.5 else "symbolic")
        self.kind = str(rng.choice(kinds, p=np.array(kind_p) / np.sum(kind_p)))
        for k in ("orders", "scheme", "tau", "dmat", "kind"):
            if k in case:
                setattr(self, k, case[k])
        sut.reset(tuple(self.tau), self.dmat)
        self.mesh = ref.Mesh(self.scheme, self.orders, *self.tau)
        s = self.spec
        self.tol = 1e-3
        self.mid_res = True
        self.lbh, self.ubh = None, None
        with mon.sut("building the optimizer"):
            self.ocp = gen.build_ocp(self.mp, ca, s)
            if on_ocp:
                on_ocp(self.ocp)
            cls = dict(mpopt=self.mp.mpopt, h=self.mp.mpopt_h_adaptive,
                       adaptive=self.mp.mpopt_adaptive)[self.kind]
            po = self.orders
            if len(set(po)) == 1 and rng.uniform() < 0.3:
                po = int(po[0])
            self.opt = cls(self.ocp, len(self.orders), po, self.scheme)
            if self.kind == "adaptive":
                self.tol = [1e-3] * s.nph
                self.lbh, self.ubh = [1e-4] * s.nph, [1.0] * s.nph
                if rng.uniform() < 0.6:
                    self.tol = [float(10 ** rng.uniform(-5, -1)) for _ in range(s.nph)]
                    self.lbh = [float(rng.uniform(1e-3, 0.1)) for _ in range(s.nph)]
                    self.ubh = [float(rng.uniform(0.5, 0.95)) for _ in range(s.nph)]
                    self.opt.tol_residual = list(self.tol)
                    self.opt.lbh, self.opt.ubh = list(self.lbh), list(self.ubh)
                if rng.uniform() < 0.2:
                    self.mid_res = False
                    self.opt.mid_residuals = False
        self.ref = ref.RefNLP(
            s, self.mesh, "adaptive" if self.kind == "adaptive" else "mpopt",
            tol_residual=self.tol if self.kind == "adaptive" else 1e-3,
            lbh=self.lbh if self.lbh else 1e-4, ubh=self.ubh if self.ubh else 1.0,
            mid_residuals=self.mid_res)
        self.widths = gen.make_widths(rng, self.mesh.ns, s.nph)
        mon.event("problems")
        mon.event("kind_" + self.kind)
        mon.event("scheme_" + self.scheme)
        mon.event("phases", s.nph)
        mon.event("segments", self.mesh.ns * s.nph)
        mon.event("with_defaults", len(s.unset) > 0)
        mon.event("many_segments", self.mesh.ns > 4)
        mon.event("many_phases", s.nph > 3)
        mon.event("long_phases", s.long)
        mon.event("high_degree", max(self.orders) > 6)
        if self.mesh.ns > 1:
            mon.event("multi_segment")
        if s.nph > 1:
            mon.event("multi_phase")
        mon.nontrivial(self.scheme, self.orders, self.kind, self.tau, s.describe())
        mon.sample(problem=s.describe(), orders=self.orders, scheme=self.scheme,
                   tau=self.tau, method=self.dmat, optimizer=self.kind)
        self.respond, self.use_widths, self.warm = respond, use_widths, warm
        self.again = again
        if solve and np.random.default_rng([case["seed"], 5]).uniform() < 0.07:
            # parts of the NLP on their own; everything else is created when needed
            p = int(rng.integers(0, s.nph))
            part = int(rng.integers(0, 3))
            mon.event("parts_first")
            with mon.sut("parts of the NLP"):
                if part == 0:
                    self.opt.discretize_phase(p)
                elif part == 1:
                    self.opt.get_nlp_variables(p)
                else:
                    self.opt.get_event_constraints()
            if callable(again):
                again()
        if solve:
            self.create()

    def create(self):
        """First solve, answered by the harness; the solver object is observed"""
        with self.mon.sut("creating and solving the NLP"):
            self.CAP.reset("fake", responder=self.responder())
            if self.kind == "h":
                self.sol = self.opt.solve(max_iter=1)
            elif self.kind == "mpopt" and self.use_widths:
                w = np.ravel(self.widths)
                self.sol = self.opt.solve(
                    mpopt_options={"nlp_sw_params": w if self.rng.uniform() < 0.5 else w.tolist()})
            else:
                self.sol = self.opt.solve()
            if self.warm and self.respond == "random" and self.rng.uniform() < 0.3:
                # a warm-started solve of the same problem, answered differently
                self.mon.event("warm_started")
                first = dict(self.sol)
                if self.rng.uniform() < 0.3:
                    first = dict(x0=first["x"])
                if self.kind == "h":
                    self.sol = self.opt.solve(initial_solution=first, max_iter=1)
                elif self.kind == "mpopt" and self.use_widths:
                    self.sol = self.opt.solve(initial_solution=first, mpopt_options={
                        "nlp_sw_params": np.ravel(self.widths)})
                else:
                    self.sol = self.opt.solve(initial_solution=first)
            if self.again and self.rng.uniform() < 0.12:
                # the NLP is created anew, from the same problem
                self.mon.event("recreated")
                if callable(self.again):
                    self.again()
                kw = dict(reinitialize_nlp=True)
                if self.kind == "h":
                    kw["max_iter"] = 1
                elif self.kind == "mpopt" and self.use_widths:
                    kw["mpopt_options"] = {"nlp_sw_params": np.ravel(self.widths)}
                self.sol = self.opt.solve(**kw)
        if not self.CAP.solvers:
            self.mon.undecided("no NLP reached the solver")
        self.rec = self.CAP.log[-1][0]
        self.call = self.rec.calls[-1]
        self.mon.event("nlps_captured")
        # sizes are part of the interface: warm starts rely on them
        if not self.mon.check(self.rec.nx == self.ref.nz, "size",
                              "number of decision variables", got=self.rec.nx,
                              want=self.ref.nz):
            raise Abort("size")
        if self.kind == "adaptive":
            self.mon.check(self.rec.np_ == 0, "size", "adaptive NLP has no parameters")
        elif not self.mon.check(self.rec.np_ == self.mesh.ns * self.spec.nph, "size",
                                "number of width parameters", got=self.rec.np_):
            raise Abort("size")

    def again_solved(self, p=0.35):
        """With this probability: another answer, on other widths, of the same optimizer"""
        if self.rng.uniform() >= p:
            return False
        self.mon.event("second_solutions")
        self.widths = gen.make_widths(self.rng, self.mesh.ns, self.spec.nph)
        with self.mon.sut("solving again"):
            if self.kind == "h":
                self.sol = self.opt.solve(max_iter=1)
            elif self.kind == "mpopt" and self.rng.uniform() < 0.85:
                self.sol = self.opt.solve(mpopt_options={"nlp_sw_params": np.ravel(self.widths)})
            else:
                self.sol = self.opt.solve()
        self.call = self.CAP.log[-1][1]
        return True

    def responder(self):
        """What the solver answers"""
        if self.respond == "random":
            return lambda solver, call: self.ref.random_z(self.rng)
        if callable(self.respond):
            return self.respond
        return None

    def widths_used(self):
        """Width fractions of the last solve, per phase (None: in the solution)"""
        if self.kind == "adaptive":
            return None
        return self.call.inputs["p"].reshape(self.spec.nph, self.mesh.ns)

    def trajs(self, scaled=False):
        return self.ref.decode(np.asarray(self.sol["x"]).ravel(), self.widths_used(), scaled)

    def p(self, widths=None):
        if self.kind == "adaptive":
            return None
        return np.ravel(self.widths if widths is None else widths)

    # ------------------------------------------------------------------ rows
    def compare_rows(self, own, npts=3):
        """Match captured constraints with the expected ones; report what concerns
        the categories in `own`"""
        mon, R = self.mon, self.ref
        pts = [R.random_z(self.rng, sum_one="width_sum" not in own) for _ in range(npts)]
        wds = [gen.make_widths(self.rng, self.mesh.ns, self.spec.nph) for _ in pts]
        got = np.stack([self.rec.eval(z, self.p(w))[1] for z, w in zip(pts, wds)], 1)
        lbg, ubg = self.call.inputs["lbg"], self.call.inputs["ubg"]
        if not mon.check(len(lbg) == len(ubg) == len(got), "bounds_size",
                         "constraint bounds do not match the constraints",
                         g=len(got), lbg=len(lbg), ubg=len(ubg)):
            raise Abort("bounds")
        exp = [R.rows(z, w) for z, w in zip(pts, wds)]
        V, lo, hi, tag = [], [], [], []
        for c in CATS:
            if c in exp[0]:
                V.append(np.stack([e[c][0] for e in exp], 1))
                lo.append(exp[0][c][1])
                hi.append(exp[0][c][2])
                tag += [(c, k) for k in range(len(exp[0][c][1]))]
        V, lo, hi = np.concatenate(V), np.concatenate(lo), np.concatenate(hi)
        ce, cg = ref.canon(V, lo, hi), ref.canon(got, lbg, ubg)
        miss, extra = ref.match(ce, cg)
        n_own = sum(1 for i in ce[3] if tag[i][0] in own)
        mon.event("constraint_rows_compared", len(ce[3]))
        mon.event("own_rows", n_own)
        mon.oracle += len(ce[3])
        for c in own:
            k = sum(1 for i in ce[3] if tag[i][0] == c)
            if k:
                mon.event("rows_" + c, k)
                mon.event("problems_with_" + c)
        mine = [i for i in miss if tag[i][0] in own]
        if mine:
            mon.fail("missing_" + tag[mine[0]][0],
                     "constraint required by the problem is not in the NLP",
                     category=tag[mine[0]], count=len(mine), of=n_own,
                     value=V[mine[0]], lb=lo[mine[0]], ub=hi[mine[0]],
                     unmatched_in_nlp=[dict(row=j, value=got[j], lb=lbg[j], ub=ubg[j])
                                       for j in extra[:3]])
        if extra and len(extra) > len(miss):
            mon.fail("extra_constraint", "the NLP has constraints the problem does not ask for",
                     n_extra=len(extra), n_missing=len(miss),
                     first=dict(row=extra[0], value=got[extra[0]], lb=lbg[extra[0]],
                                ub=ubg[extra[0]]))
        return not mine


# ------------------------------------------------------- after the solve (fake or real)
def post_setup(case, mon, **kw):
    """A solved optimizer whose solution is a random decision vector"""
    kw.setdefault("respond", "random")
    kw.setdefault("use_widths", True)
    return Setup(case, mon, **kw)


class PhaseRef:
    """Piecewise polynomials of one phase of the solution (scaled states/controls)"""

    def __init__(self, mesh, T):
        self.m, self.T = mesh, T
        self.c = np.concatenate([[0.0], np.cumsum(T.wd)])
        self.b = T.t0 + (T.tf - T.t0) * self.c  # segment boundaries in time
        self.t = mesh.times(T.t0, T.tf, T.wd)

    def tau(self, i, t):
        m = self.m
        return m.tau0 + m.len * (np.asarray(t, float) - self.b[i]) / (self.b[i + 1] - self.b[i])

    def time(self, i, tau):
        m = self.m
        return self.b[i] + (self.b[i + 1] - self.b[i]) * (np.asarray(tau, float) - m.tau0) / m.len

    def val(self, i, tau, what="X", order=0):
        x = self.m.x[i]
        M = ref.interp(x, tau) if order == 0 else ref.diff_at(x, tau, order)
        return M @ getattr(self.T, what)[self.m.seg(i)]

    def mag(self, i, what="X", order=0):
        v = np.abs(getattr(self.T, what)[self.m.seg(i)])
        return float(v.max() * (1 if order == 0 else np.abs(ref.diff_at(
            self.m.x[i], self.m.x[i], order)).sum(axis=1).max()) + 1e-12)

    def h(self, i):
        return (self.T.tf - self.T.t0) / self.m.len * self.T.wd[i]

    def locate(self, t):
        """Segment of each time"""
        return np.clip(np.searchsorted(self.b[1:-1], np.ravel(t), "right"), 0, self.m.ns - 1)


def arr(v):
    """Anything array-like the library returns -> float array"""
    if v is None:
        return np.zeros(0)
    if hasattr(v, "full"):
        return v.full()
    if isinstance(v, (list, tuple)) and len(v) and hasattr(v[0], "full"):
        return np.array([x.full() for x in v])
    return np.array(v, dtype=float)


def random_nodes(rng, s, pmin=0, pmax=6, spread=False):
    """nodes[phase][segment] -> points in the reference interval"""
    m = s.mesh
    out = []
    for _ in range(s.spec.nph):
        ph = []
        for i in range(m.ns):
            k = int(rng.integers(pmin, pmax + 1))
            if spread:
                g = (np.arange(k) + rng.uniform(0.2, 0.8, k)) / max(k, 1)
                if k and rng.uniform() < 0.15:
                    g[0] = 0.0
            else:
                g = np.sort(rng.uniform(0, 1, k))
            ph.append(m.tau0 + m.len * g)
        if sum(len(q) for q in ph) == 0:
            ph[0] = np.array([m.tau0 + 0.37 * m.len])
        if rng.uniform() < 0.25:
            ph = colloc.echo(rng, ph, (m.tau0, m.tau1), 0.5)
        if out and rng.uniform() < 0.15:
            ph = [colloc.near(rng, q, (m.tau0, m.tau1)) for q in out[-1]]
        out.append(ph)
    return out


def pick_phases(rng, nph):
    k = int(rng.integers(1, nph + 1))
    return [int(i) for i in rng.permutation(nph)[:k]]


def dyn_values(s, p, X, U, t, A):
    """User's dynamics at unscaled points"""
    sp = s.spec
    return np.array([[e(sp.args(X[k], U[k], t[k], A), np.sin) for e in sp.dyn[p]]
                     for k in range(len(t))]).reshape(len(t), sp.nx)


def check_grid(mon, m, wd, taus, g, tol=0.0):
    """Points of the evaluation grid "g" of one phase, per segment on the reference interval"""
    taus = [np.ravel(np.asarray(t, float)) for t in taus]
    if not mon.check(len(taus) == m.ns, "segments", "one list per segment", n=len(taus)):
        return
    e = (1e-9 + tol) * m.len
    for t in taus:
        mon.check(t.size == 0 or (t.min() >= m.tau0 - e and t.max() <= m.tau1 + e),
                  "inside", "points inside the segment", taus=t, grid=g)
    if g == "fixed":
        c = np.concatenate([[0], np.cumsum(wd)])
        y = np.concatenate([c[i] + wd[i] * (t - m.tau0) / m.len for i, t in enumerate(taus)])
        n = len(y) + 2
        mon.check(n >= m.N, "fixed_few", "at least as many points as nodes", n=n, N=m.N)
        mon.close(y, np.arange(1, n - 1) / (n - 1.0), "fixed",
                  "equally spaced interior points of the phase", rtol=0, atol=1e-9 + tol, widths=wd)
    elif g == "mid-points":
        for i, t in enumerate(taus):
            mon.close(t, m.mid[i], "mid", "mid points between the nodes", rtol=0,
                      atol=(1e-11 + tol) * (1 + m.len))
    else:
        for i, t in enumerate(taus):
            d = len(t) + 1
            mon.check(d > m.orders[i], "spectral_few", "nodes of a higher order", n=len(t),
                      degree=m.orders[i])
            mon.close(t, ref.nodes(m.scheme, d, m.tau0, m.tau1)[1:-1], "spectral",
                      "interior nodes of a higher order scheme", rtol=0,
                      atol=(1e-10 + tol) * (1 + m.len))


def own_grids(s):
    """Sets the optimizer's evaluation grids, phase by phase"""
    s.opt.grid_type = [str(s.rng.choice(["fixed", "mid-points", "spectral"]))
                       for _ in range(s.spec.nph)]
    return list(s.opt.grid_type)
