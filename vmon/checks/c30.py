"""The same polynomial trajectory on different meshes and phase structures"""
import types

import casadi as ca
import numpy as np
from numpy.polynomial import polynomial as Po

from .. import gen, ref
from ..trans import case_list

PROPERTY = "C30"
RULE = ("problems built around a random polynomial trajectory (non-linear dynamics, costs, path, "
        "terminal, slope constraints, scaling, parameters), transcribed on a random mesh and on "
        "meshes derived from it (segment divided, degree raised, other scheme, other widths, "
        "other optimizer class, phase split in two or three); the sampled trajectory must satisfy "
        "every captured constraint with the exact cost, and perturbed ones must not; non-trivial "
        "= distinct (problem, variant, mesh).")
ASSUMPTIONS = ["decision vector order X, U, t0, tf, a, widths per phase (documented)",
               "costs are of a degree the quadrature integrates exactly"]
NEED = {"variants": 500, "divided": 60, "raised": 60, "scheme": 60, "split": 100, "perturbed": 400,
        "kind_adaptive": 60, "violations_seen": 400}
CASE_LIMIT = 200


def cases(tier, seed):
    return case_list(tier, seed, salt=30, quick=400)


class Problem:
    """x' = g(x, u, t, a) + (p'(t) - g(p(t), q(t), t, A)) with polynomial p, q"""

    def __init__(self, rng):
        self.nx, self.nu = int(rng.integers(1, 4)), int(rng.integers(1, 3))
        self.na = int(rng.integers(0, 3))
        self.d = int(rng.integers(1, 4))
        self.quad = rng.uniform() < 0.4
        self.t0 = float(np.round(rng.uniform(-1, 1), 3)) if rng.uniform() < 0.5 else 0.0
        self.tf = self.t0 + float(np.round(rng.uniform(0.6, 3), 3))
        self.px = [np.round(rng.uniform(-1, 1, self.d + 1), 3) for _ in range(self.nx)]
        self.pu = [np.round(rng.uniform(-1, 1, self.d + 1), 3) for _ in range(self.nu)]
        self.A = np.round(rng.uniform(-1, 1, self.na), 3)
        on = rng.uniform() < 0.6
        self.scale_x, self.scale_u, self.scale_a = (
            gen._scale(rng, n, on) for n in (self.nx, self.nu, self.na))
        self.scale_t = float(np.round(10.0 ** rng.uniform(-1, 1), 4)) if on else 1.0
        nv = self.nx + self.nu + 1 + self.na
        self.g = [gen.Expr(rng, nv) for _ in range(self.nx)]
        self.cx, self.cu = rng.uniform(-1, 1, self.nx), rng.uniform(-1, 1, self.nu)
        self.ct, self.cq = float(rng.uniform(-1, 1)), float(rng.uniform(-1, 1))
        self.fa, self.fb = rng.uniform(-1, 1, self.nx + 1), rng.uniform(-1, 1, self.nx + 1)
        self.path = [gen.Expr(rng, nv) for _ in range(int(rng.integers(0, 3)))]
        tt = np.linspace(self.t0, self.tf, 400)
        X, U = self.X(tt), self.U(tt)
        v = np.array([[e(self.args(X[k], U[k], tt[k], self.A), np.sin) for e in self.path]
                      for k in range(len(tt))]).reshape(len(tt), -1)
        self.path_max = v.max(axis=0) + 0.05 if v.size else np.zeros(0)
        self.lbx, self.ubx = X.min(0) - 0.1, X.max(0) + 0.1
        self.lbu, self.ubu = U.min(0) - 0.1, U.max(0) + 0.1
        dU = np.array([Po.polyval(tt, Po.polyder(c)) for c in self.pu])
        self.du = (float(dU.min()) - 0.05, float(dU.max()) + 0.05)
        self.diff_u, self.midu, self.cont = (int(rng.uniform() < p) for p in (0.5, 0.6, 0.5))
        self.term = rng.uniform() < 0.6

    def args(self, x, u, t, a):
        return ([x[i] for i in range(self.nx)] + [u[i] for i in range(self.nu)] + [t]
                + [a[i] for i in range(self.na)])

    def X(self, t):
        return np.array([Po.polyval(np.asarray(t, float), c) for c in self.px]).T

    def U(self, t):
        return np.array([Po.polyval(np.asarray(t, float), c) for c in self.pu]).T

    @staticmethod
    def pol(c, t):
        v = float(c[-1])
        for k in c[-2::-1]:
            v = v * t + float(k)
        return v

    def f(self, x, u, t, a):
        sin = ca.sin
        p = [self.pol(c, t) for c in self.px]
        q = [self.pol(c, t) for c in self.pu]
        ref_a = self.args(p, q, t, [float(v) for v in self.A])
        cur = self.args(x, u, t, a)
        return [self.g[i](cur, sin) - self.g[i](ref_a, sin) + self.pol(Po.polyder(self.px[i]), t)
                + t * 0 for i in range(self.nx)]

    def run(self, x, u, t, a):
        v = self.ct * t
        for i in range(self.nx):
            v = v + float(self.cx[i]) * x[i]
        for i in range(self.nu):
            v = v + float(self.cu[i]) * u[i]
        if self.quad:
            v = v + self.cq * x[0] * u[0]
        for i in range(self.na):
            v = v + 0.3 * a[i]
        return v

    def cost(self):
        """Exact cost of the trajectory"""
        s, w = np.polynomial.legendre.leggauss(20)
        t = 0.5 * (self.t0 + self.tf) + 0.5 * (self.tf - self.t0) * s
        X, U = self.X(t), self.U(t)
        J = 0.5 * (self.tf - self.t0) * sum(
            w[k] * self.run(X[k], U[k], t[k], self.A) for k in range(len(t)))
        return J + self.end(self.X(self.tf), self.tf) + self.begin(self.X(self.t0), self.t0)

    def end(self, x, t):
        v = float(self.fa[-1]) * t
        for i in range(self.nx):
            v = v + float(self.fa[i]) * x[i] * x[i]
        return v

    def begin(self, x, t):
        v = float(self.fb[-1]) * t
        for i in range(self.nx):
            v = v + float(self.fb[i]) * x[i]
        return v

    def spec(self, cuts):
        """What the reference needs to encode: sizes and scales"""
        return types.SimpleNamespace(
            nx=self.nx, nu=self.nu, na=self.na, nph=len(cuts) - 1, scale_x=self.scale_x,
            scale_u=self.scale_u, scale_a=self.scale_a, scale_t=self.scale_t)

    def ocp(self, mp, cuts):
        n = len(cuts) - 1
        o = mp.OCP(n_states=self.nx, n_controls=self.nu, n_phases=n, n_params=self.na)
        wrap = (lambda fn: fn) if self.na else (lambda fn: lambda *a: fn(*a, ()))
        for p in range(n):
            o.dynamics[p] = wrap(lambda x, u, t, a: self.f(x, u, t, a))
            o.running_costs[p] = wrap(lambda x, u, t, a: self.run(x, u, t, a))
            first, last = p == 0, p == n - 1
            o.terminal_costs[p] = wrap(lambda xf, tf, x0, t0, a, first=first, last=last: (
                (self.end(xf, tf) if last else 0) + (self.begin(x0, t0) if first else 0)))
            if self.path:
                o.path_constraints[p] = wrap(lambda x, u, t, a: [
                    e(self.args(x, u, t, a), ca.sin) - float(b)
                    for e, b in zip(self.path, self.path_max)])
            if self.term and last:
                o.terminal_constraints[p] = wrap(lambda xf, tf, x0, t0, a: [
                    xf[i] - self.pol(self.px[i], tf) for i in range(self.nx)])
            o.x00[p], o.xf0[p] = self.X(cuts[p]), self.X(cuts[p + 1])
            o.u00[p], o.uf0[p] = self.U(cuts[p]), self.U(cuts[p + 1])
            o.t00[p], o.tf0[p] = cuts[p], cuts[p + 1]
            o.lbt0[p] = o.ubt0[p] = cuts[p]
            o.lbtf[p], o.ubtf[p] = cuts[p + 1] - 0.1, cuts[p + 1] + 0.1
            o.lbx[p], o.ubx[p], o.lbu[p], o.ubu[p] = self.lbx, self.ubx, self.lbu, self.ubu
            if self.na:
                o.a0[p], o.lba[p], o.uba[p] = self.A, self.A - 0.5, self.A + 0.5
            o.diff_u[p], o.midu[p], o.du_continuity[p] = self.diff_u, self.midu, self.cont
            o.lbdu[p], o.ubdu[p] = self.du
        o.scale_x, o.scale_u, o.scale_a = (v.copy() for v in (self.scale_x, self.scale_u, self.scale_a))
        o.scale_t = self.scale_t
        return o


def run(case, mon):
    from .. import sut

    mp, CAP = sut.mp, sut.CAP
    rng = np.random.default_rng(case["seed"])
    P = Problem(rng)
    lo = max(2 * P.d if P.quad else P.d, 1)
    tau = [(-1, 1), (0, 1)][int(rng.integers(0, 2))]
    dm = "symbolic" if rng.uniform() < 0.5 else "numerical"
    base = [int(v) for v in rng.integers(lo, lo + 3, int(rng.integers(1, 4)))]
    scheme = gen.SCHEMES[int(rng.integers(0, 3))]
    V = [("base", base, scheme, 1)]
    i = int(rng.integers(0, len(base)))
    V.append(("divided", base[:i] + [base[i]] * int(rng.integers(2, 4)) + base[i + 1:], scheme, 1))
    up = list(base)
    up[i] += int(rng.integers(1, 4))
    V.append(("raised", up, scheme, 1))
    V.append(("scheme", base, str(rng.choice([q for q in gen.SCHEMES if q != scheme])), 1))
    V.append(("split", base, scheme, int(rng.integers(2, 4))))
    J = P.cost()
    for name, orders, sch, nph in [V[0]] + [V[1 + int(k)] for k in rng.permutation(4)[:3]]:
        kind = str(rng.choice(["mpopt", "mpopt", "adaptive"]))
        cuts = np.concatenate([[P.t0], np.sort(P.t0 + (P.tf - P.t0) * (
            np.arange(1, nph) + rng.uniform(-0.3, 0.3, nph - 1)) / nph), [P.tf]])
        sut.reset(tau, dm)
        m = ref.Mesh(sch, orders, *tau)
        sp = P.spec(cuts)
        R = ref.RefNLP(sp, m, kind)
        wd = gen.make_widths(rng, m.ns, nph)
        tr = []
        for p in range(nph):
            t = m.times(cuts[p], cuts[p + 1], wd[p])
            tr.append(ref.Traj(P.X(t), P.U(t), cuts[p], cuts[p + 1], P.A, wd[p]))
        z = R.encode(tr)
        with mon.sut("transcription (%s)" % name):
            cls = mp.mpopt if kind == "mpopt" else mp.mpopt_adaptive
            o = cls(P.ocp(mp, cuts), m.ns, list(orders), sch)
            CAP.reset("fake")
            o.solve()
        rec, call = CAP.log[-1]
        mon.event("variants")
        mon.event(name)
        mon.event("kind_" + kind)
        mon.nontrivial(name, orders, sch, kind, nph, P.px, P.nu)
        mon.sample(variant=name, orders=orders, scheme=sch, phases=nph, optimizer=kind, cost=J)
        if not mon.check(rec.nx == len(z), "size", "number of variables", got=rec.nx, want=len(z)):
            return
        pw = None if kind == "adaptive" else wd.ravel()
        f, g = rec.eval(z, pw)
        b = call.inputs
        S = max(1.0, np.abs(P.scale_x).max(), np.abs(P.scale_u).max())
        tol = 1e-6 * S

        def viol(z, g):
            return max(np.max(np.maximum(b["lbg"] - g, g - b["ubg"]), initial=0),
                       np.max(np.maximum(b["lbx"] - z, z - b["ubx"]), initial=0))

        v = viol(z, g)
        k = int(np.argmax(np.maximum(b["lbg"] - g, g - b["ubg"]))) if len(g) else -1
        mon.check(v <= tol, "feasible", "exact trajectory is feasible on the %s mesh" % name,
                  violation=v, row=k, value=g[k] if k >= 0 else None, orders=orders, scheme=sch,
                  optimizer=kind, phases=nph, widths=wd)
        mon.close(f, J, "cost", "cost of the trajectory on the %s mesh" % name, rtol=0,
                  atol=(3e-4 if dm == "symbolic" else 1e-8) * (1 + abs(J)), orders=orders, scheme=sch,
                  phases=nph)
        # trajectories that leave the dynamics
        for _ in range(2):
            p = int(rng.integers(0, nph))
            T = [ref.Traj(q.X.copy(), q.U.copy(), q.t0, q.tf, q.A, q.wd) for q in tr]
            how = int(rng.integers(0, 3))
            dl = float(rng.choice([-1, 1]) * rng.uniform(0.02, 0.08))
            n = int(rng.integers(0, m.N))
            if how == 0:
                T[p].X[n, int(rng.integers(0, P.nx))] += dl
            elif how == 1:  # a straight line instead of the curve: wrong slope everywhere
                c = int(rng.integers(0, P.nx))
                T[p].X[:, c] += dl * np.linspace(-1, 1, m.N) ** 3 * 10
            else:  # part of the path from another trajectory
                c = int(rng.integers(0, P.nx))
                T[p].X[n:, c] += dl * 5
                if n == 0:
                    T[p].X[0, c] -= dl * 3
            zb = R.encode(T)
            _, gb = rec.eval(zb, pw)
            mon.event("perturbed")
            vb = np.max(np.maximum(b["lbg"] - gb, gb - b["ubg"]), initial=0)
            mon.event("violations_seen", vb > 1e-5)
            mon.check(vb > 1e-6 * P.scale_x.min(), "infeasible", "trajectory off the dynamics stays infeasible on "
                      "the %s mesh" % name, how=how, node=n, delta=dl, worst=vb, orders=orders,
                      scheme=sch, optimizer=kind)
