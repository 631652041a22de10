"""Known optima, end to end with the real solver"""
import casadi as ca
import numpy as np
import scipy.linalg as sl

from .. import gen, ref
from ..trans import PhaseRef, arr, case_list

PROPERTY = "C26"
RULE = ("random linear-quadratic problems (time-varying forcing, parameters, any number of phases "
        "with state jumps, free or fixed end states), minimum-energy integrator chains, free final "
        "time, minimum time, fuel-optimal landing, Bryson-Denham and brachistochrone problems, "
        "solved with ipopt by every optimizer class; non-trivial = distinct (family, class, "
        "scheme, mesh, problem).")
ASSUMPTIONS = ["the optimum of a linear-quadratic problem comes from its linear two-point "
               "boundary value problem (matrix exponentials)",
               "tolerances are discretisation accuracy on the chosen meshes (given per family)",
               "runs the solver does not finish successfully are not judged"]
NEED = {"solved": 100, "fam_lq": 40, "fam_chain": 8, "fam_free_time": 8, "fam_landing": 5,
        "fam_min_time": 5, "kind_mpopt": 30, "kind_h": 15, "kind_adaptive": 10, "kind_solve": 8,
        "kind_ph": 8, "multi_phase": 25, "scaled": 30, "params": 10, "unequal_widths": 15}
CASE_LIMIT = 300
FAMS = ["lq"] * 10 + ["chain"] * 2 + ["free_time"] * 2 + ["landing", "min_time", "bryson", "brachisto"]


def cases(tier, seed):
    # the first case is the known finding "low order" (see known_findings.txt)
    return [dict(probe="low_order")] + case_list(tier, seed, salt=26, quick=300, thorough=5000)


# ------------------------------------------------------------------ families
class LQ:
    """Piecewise linear system, quadratic cost; phases share the matrices"""

    tol = dict(cost=3e-4, x=6e-3, u=6e-2)

    def __init__(self, rng):
        ri = lambda a, b: int(rng.integers(a, b + 1))
        nx = ri(1, 3)
        nu = ri(1, min(2, nx))
        self.nx, self.nu = nx, nu
        self.na = ri(1, 2) if rng.uniform() < 0.3 else 0
        self.nph = int(rng.choice([1, 1, 2, 3]))
        self.T = float(rng.uniform(0.8, 2.0))
        self.t0 = float(rng.choice([0.0, 0.0, -0.7, 1.3]))
        k = self.nph
        f = np.concatenate([[0], np.cumsum(rng.uniform(0.6, 1.4, k))])
        self.cuts = self.t0 + self.T * f / f[-1]
        self.A = rng.uniform(-1, 1, (nx, nx))
        self.B = rng.uniform(-1, 1, (nx, nu))
        for i in range(min(nx, nu)):
            self.B[i, i] += 1.5 * np.sign(self.B[i, i])
        self.om = float(rng.uniform(0.5, 2.0))
        self.E = rng.uniform(-1, 1, (nx, 3)) * (rng.uniform() < 0.6)  # 1, sin, cos
        self.G = rng.uniform(-1, 1, (nx, self.na))
        L = rng.uniform(-1, 1, (nx, nx))
        self.Q = L @ L.T * float(rng.choice([0, 1, 2]))
        self.q = rng.uniform(-1, 1, nx) * (rng.uniform() < 0.4)  # linear cost
        self.R = np.diag(rng.uniform(0.5, 2, nu))
        self.W = np.diag(rng.uniform(1, 3, self.na))
        self.S = np.diag(rng.uniform(0, 3, nx) * (rng.uniform(size=nx) < 0.6))
        self.xt = rng.uniform(-1, 1, nx)
        # fixed end components: no more than can be controlled
        self.fixed = rng.uniform(size=nx) < (0.5 if nu < nx else 0.6)
        self.x0 = rng.uniform(-2, 2, nx)
        self.J = rng.uniform(-0.7, 0.7, (k - 1, nx)) * (rng.uniform(size=(k - 1, nx)) < 0.6)
        self.solve()

    def solve(self):
        nx, na, k = self.nx, self.na, self.nph
        iR = np.linalg.inv(self.R)
        NA = na * k
        n = nx + 3 + NA + nx + NA  # x, s, a, lam, mu
        X, Sg, Aa, L, M = (slice(0, nx), slice(nx, nx + 3), slice(nx + 3, nx + 3 + NA),
                           slice(nx + 3 + NA, 2 * nx + 3 + NA), slice(2 * nx + 3 + NA, n))
        self.X, self.L, self.Aa, self.iR, self.n = X, L, Aa, iR, n
        self.M = []
        for p in range(k):
            m = np.zeros((n, n))
            m[X, X], m[X, Sg], m[X, L] = self.A, self.E, -self.B @ iR @ self.B.T
            m[X, Aa][:, na * p:na * (p + 1)] = self.G
            m[nx + 1, nx + 2], m[nx + 2, nx + 1] = self.om, -self.om
            m[L, X], m[L, L] = -self.Q, -self.A.T
            m[L, nx] = -self.q
            m[M, L][na * p:na * (p + 1)] = -self.G.T
            self.M.append(m)
        P, c = np.eye(n), np.zeros(n)
        self.Pk = []
        for p in range(k):
            e = sl.expm(self.M[p] * (self.cuts[p + 1] - self.cuts[p]))
            P, c = e @ P, e @ c
            if p < k - 1:
                c = c + np.concatenate([self.J[p], np.zeros(n - nx)])
        # unknowns: a, lam(0), nu (multipliers of the fixed components)
        fx = np.flatnonzero(self.fixed)
        z0 = np.zeros(n)
        z0[X] = self.x0
        z0[Sg] = [1, np.sin(self.om * self.t0), np.cos(self.om * self.t0)]
        nun = NA + nx + len(fx)
        sel = np.zeros((n, nun))
        for j in range(NA):
            sel[nx + 3 + j, j] = 1
        for j in range(nx):
            sel[nx + 3 + NA + j, NA + j] = 1
        zT0, zTs = P @ z0 + c, P @ sel
        rows, rhs = [], []
        for j in range(NA):
            r = zTs[M][j].copy()
            r[:NA] -= sl.block_diag(*[self.W] * k)[j]
            rows.append(r)
            rhs.append(-zT0[M][j])
        for i in range(nx):
            r = zTs[L][i] - self.S[i] @ zTs[X]
            if i in fx:
                r[NA + nx + list(fx).index(i)] -= 1
            rows.append(r)
            rhs.append(-(zT0[L][i] - self.S[i] @ (zT0[X] - self.xt)))
        for i in fx:
            rows.append(zTs[X][i])
            rhs.append(self.xt[i] - zT0[X][i])
        K = np.array(rows)
        self.cond = np.linalg.cond(K)
        th = np.linalg.solve(K, np.array(rhs))
        self.z0 = z0 + sel @ th
        self.a = th[:NA].reshape(k, na)
        z = self.z0
        self.start = []
        for p in range(k):
            self.start.append(z.copy())
            z = sl.expm(self.M[p] * (self.cuts[p + 1] - self.cuts[p])) @ z
            if p < k - 1:
                z = z.copy()
                z[X] += self.J[p]
        xT = z[X]
        J = 0.5 * (xT - self.xt) @ self.S @ (xT - self.xt) + sum(0.5 * a @ self.W @ a for a in self.a)
        g, w = np.polynomial.legendre.leggauss(24)
        for p in range(k):
            h = (self.cuts[p + 1] - self.cuts[p]) / 2
            x, u = self.traj(p, self.cuts[p] + h * (g + 1))
            J += h * w @ np.array([0.5 * a @ self.Q @ a + self.q @ a + 0.5 * b @ self.R @ b
                                   for a, b in zip(x, u)])
        self.J_opt = float(J)

    def traj(self, p, t):
        z = np.array([sl.expm(self.M[p] * (v - self.cuts[p])) @ self.start[p] for v in np.ravel(t)])
        return z[:, self.X], -(self.iR @ self.B.T @ z[:, self.L].T).T

    def usable(self):
        self.xm = max(np.abs(self.traj(p, np.linspace(self.cuts[p], self.cuts[p + 1], 20))[0]).max()
                      for p in range(self.nph))
        self.um = max(np.abs(self.traj(p, np.linspace(self.cuts[p], self.cuts[p + 1], 20))[1]).max()
                      for p in range(self.nph))
        return self.cond < 1e6 and self.xm < 20 and self.um < 40

    def mesh(self, rng):
        ns = int(rng.integers(1, 5))
        return ns, [int(v) for v in rng.integers({1: 8, 2: 6, 3: 5, 4: 5}[ns], 10, ns)]

    def ocp(self, mp, rng):
        o = mp.OCP(n_states=self.nx, n_controls=self.nu, n_phases=self.nph, n_params=self.na)
        A, B, E, G, om = self.A, self.B, self.E, self.G, self.om

        def lin(M, i, v):
            return sum(float(M[i, j]) * v[j] for j in range(M.shape[1]))

        def dyn(x, u, t, a=()):
            s = [1.0, ca.sin(om * t), ca.cos(om * t)]
            return [lin(A, i, x) + lin(B, i, u) + lin(E, i, s) + (lin(G, i, a) if self.na else 0)
                    for i in range(self.nx)]

        def quad(M, v):
            return 0.5 * sum(float(M[i, j]) * v[i] * v[j] for i in range(len(M)) for j in range(len(M)))

        def run(x, u, t, a=()):
            return quad(self.Q, x) + quad(self.R, u) + sum(float(self.q[i]) * x[i] for i in range(self.nx))

        def mayer(p, xf, a):
            c = quad(self.W, a) if self.na else 0.0
            if p == self.nph - 1:
                c = c + quad(self.S, [xf[i] - float(self.xt[i]) for i in range(self.nx)])
            return c

        fx = np.flatnonzero(self.fixed)
        for p in range(self.nph):
            o.dynamics[p], o.running_costs[p] = dyn, run
            if self.na:
                o.terminal_costs[p] = lambda xf, tf, x0, t0, a, p=p: mayer(p, xf, a)
            elif p == self.nph - 1:
                o.terminal_costs[p] = lambda xf, tf, x0, t0, p=p: mayer(p, xf, ())
            o.lbt0[p] = o.ubt0[p] = o.t00[p] = self.cuts[p]
            o.lbtf[p] = o.ubtf[p] = o.tf0[p] = self.cuts[p + 1]
            if rng.uniform() < 0.3:
                o.lbx[p], o.ubx[p] = -self.xm - 5, self.xm + 5
            if rng.uniform() < 0.5:
                o.lbu[p], o.ubu[p] = -self.um - 4, self.um + 4
            o.x00[p] = self.x0 if p == 0 else rng.uniform(-1, 1, self.nx)
            o.xf0[p] = rng.uniform(-1, 1, self.nx)
        if len(fx):
            if self.na:
                o.terminal_constraints[self.nph - 1] = lambda xf, tf, x0, t0, a: [
                    xf[int(i)] - float(self.xt[i]) for i in fx]
            else:
                o.terminal_constraints[self.nph - 1] = lambda xf, tf, x0, t0: [
                    xf[int(i)] - float(self.xt[i]) for i in fx]
        if self.nph > 1:
            o.lbe, o.ube = self.J.copy(), self.J.copy()
        return o

    params = property(lambda s: s.a)

    def describe(self):
        return dict(nx=self.nx, nu=self.nu, na=self.na, cuts=self.cuts, A=self.A, B=self.B, J=self.J)


class Chain(LQ):
    """Integrator chain, minimum energy between fixed states: polynomial solution"""

    tol = dict(cost=1e-5, x=1e-3, u=5e-3)

    def __init__(self, rng):
        n = int(rng.integers(1, 4))
        self.nx, self.nu, self.na, self.nph = n, 1, 0, int(rng.choice([1, 2, 3]))
        self.T, self.t0 = float(rng.uniform(0.5, 3)), float(rng.choice([0, 0.8]))
        f = np.concatenate([[0], np.cumsum(rng.uniform(0.6, 1.4, self.nph))])
        self.cuts = self.t0 + self.T * f / f[-1]
        self.A, self.B = np.eye(n, k=1), np.eye(n)[:, -1:]
        self.om, self.E = 1.0, np.zeros((n, 3))
        self.G, self.Q, self.q = np.zeros((n, 0)), np.zeros((n, n)), np.zeros(n)
        self.R, self.W, self.S = np.eye(1), np.zeros((0, 0)), np.zeros((n, n))
        self.fixed = np.ones(n, bool)
        self.x0, self.xt = rng.uniform(-1, 1, n), rng.uniform(-1, 1, n)
        self.J = np.zeros((self.nph - 1, n))
        self.solve()

    def usable(self):
        return LQ.usable(self) and self.um < 60

    def mesh(self, rng):
        # quadrature of the squared control must be exact for the optimum to be the discrete one
        ns = int(rng.integers(1, 4))
        lo = max(2 * self.nx - 1, 2 * (self.nx - 1), 2)
        return ns, [int(v) for v in rng.integers(lo, lo + 4, ns)]


class Simple:
    """Problems with one known number or more; `expect` -> dict(cost, tf, a, x, u)"""

    na, nph, params = 0, 1, None

    def usable(self):
        return True

    def describe(self):
        return {k: v for k, v in self.__dict__.items() if not callable(v)}


class FreeTime(Simple):
    """Rest to rest with cost of time and energy: tf = (18 d^2 / c)^(1/4)"""

    tol = dict(cost=1e-5, x=1e-4, u=1e-3)
    nx, nu = 2, 1

    def __init__(self, rng):
        self.d, self.c = float(rng.uniform(0.5, 4)), float(rng.uniform(0.5, 3))
        self.nph = int(rng.choice([1, 1, 2]))
        self.t0 = float(rng.choice([0.0, 0.6]))
        self.T = (18 * self.d ** 2 / self.c) ** 0.25
        self.J_opt = self.c * self.T + 6 * self.d ** 2 / self.T ** 3
        self.tf = self.t0 + self.T

    def mesh(self, rng):
        ns = int(rng.integers(1, 4))
        return ns, [int(v) for v in rng.integers(3, 7, ns)]

    def traj(self, p, t):
        s = (np.ravel(t) - self.t0) / self.T
        return (np.stack([self.d * (3 * s ** 2 - 2 * s ** 3), self.d / self.T * 6 * s * (1 - s)], 1),
                (self.d / self.T ** 2 * (6 - 12 * s))[:, None])

    def ocp(self, mp, rng):
        o = mp.OCP(n_states=2, n_controls=1, n_phases=self.nph)
        for p in range(self.nph):
            o.dynamics[p] = lambda x, u, t: [x[1], u[0]]
            if rng.uniform() < 0.5:
                o.running_costs[p] = lambda x, u, t: 0.5 * u[0] ** 2 + self.c
            else:
                o.running_costs[p] = lambda x, u, t: 0.5 * u[0] ** 2
                o.terminal_costs[p] = lambda xf, tf, x0, t0: self.c * (tf - t0)
            w = self.T / self.nph
            o.t00[p], o.tf0[p] = self.t0 + p * w * 0.9, self.t0 + (p + 1) * w * 0.9
            o.lbt0[p], o.ubt0[p] = (self.t0, self.t0) if p == 0 else (self.t0, self.t0 + 3 * self.T)
            o.lbtf[p], o.ubtf[p] = self.t0 + 0.15 * self.T * (p + 1), self.t0 + 3 * self.T
            o.x00[p], o.xf0[p] = [self.d * p / self.nph, 0], [self.d * (p + 1) / self.nph, 0]
        if self.nph == 2:
            # where the phases meet is not unique: fix the time
            self.cut = self.t0 + float(rng.uniform(0.3, 0.7)) * self.T
            o.lbtf[0] = o.ubtf[0] = o.tf0[0] = o.lbt0[1] = o.ubt0[1] = o.t00[1] = self.cut
            o.lbtf[1], o.tf0[1] = self.cut + 0.1 * self.T, self.cut + 0.9 * self.T
        q = self.nph - 1
        o.terminal_constraints[q] = lambda xf, tf, x0, t0: [xf[0] - self.d, xf[1]]
        return o


class MinTime(Simple):
    """Double integrator rest to rest, bounded control: tf = 2 sqrt(d/m)"""

    tol = dict(cost=4e-2, x=0.12, u=None)
    nx, nu, u_mean = 2, 1, True

    def __init__(self, rng):
        self.d, self.m = float(rng.uniform(0.5, 4)), float(rng.uniform(0.5, 2))
        self.t0 = float(rng.choice([0.0, 0.5]))
        self.T = self.J_opt = 2 * np.sqrt(self.d / self.m)
        self.tf = self.t0 + self.T

    def mesh(self, rng):
        ns = int(rng.integers(4, 8))
        return ns, [int(v) for v in rng.integers(4, 6, ns)]

    def traj(self, p, t):
        s = np.ravel(t) - self.t0
        h, m = self.T / 2, self.m
        x = np.where(s < h, m * s ** 2 / 2, self.d - m * (self.T - s) ** 2 / 2)
        v = np.where(s < h, m * s, m * (self.T - s))
        return np.stack([x, v], 1), None

    def ocp(self, mp, rng):
        o = mp.OCP(n_states=2, n_controls=1)
        o.dynamics[0] = lambda x, u, t: [x[1], u[0]]
        if rng.uniform() < 0.5:
            o.terminal_costs[0] = lambda xf, tf, x0, t0: tf - t0
        else:
            o.running_costs[0] = lambda x, u, t: 1.0
        o.terminal_constraints[0] = lambda xf, tf, x0, t0: [xf[0] - self.d, xf[1]]
        o.x00[0], o.xf0[0] = [0, 0], [self.d, 0]
        o.lbu[0], o.ubu[0] = -self.m, self.m
        o.lbt0[0] = o.ubt0[0] = o.t00[0] = self.t0
        o.tf0[0], o.lbtf[0], o.ubtf[0] = self.tf * 1.1, self.t0 + 0.2 * self.T, self.t0 + 4 * self.T
        return o


class Landing(Simple):
    """Fuel-optimal vertical landing: free fall, then full thrust"""

    tol = dict(cost=4e-2, x=0.25, u=None)
    nx, nu = 2, 1

    def __init__(self, rng):
        self.h, self.v = float(rng.uniform(5, 15)), float(rng.uniform(-2, 0.5))
        self.g, self.m = float(rng.uniform(1.2, 1.8)), float(rng.uniform(2.8, 3.4))
        g, m, k = self.g, self.m, self.m - self.g
        # speed at ignition: h + v^2/(2g) = V^2/(2g) + V^2/(2k)
        V = np.sqrt((self.h + self.v ** 2 / (2 * g)) / (0.5 / g + 0.5 / k))
        self.ts = (V + self.v) / g
        self.T = self.ts + V / k
        self.V, self.t0, self.tf = V, 0.0, self.T
        self.J_opt = m * V / k

    def mesh(self, rng):
        ns = int(rng.integers(4, 9))
        return ns, [int(v) for v in rng.integers(4, 6, ns)]

    def traj(self, p, t):
        t, g, k = np.ravel(t), self.g, self.m - self.g
        r = np.maximum(0, self.T - t)
        x = np.where(t < self.ts, self.h + self.v * t - g * t ** 2 / 2, k * r ** 2 / 2)
        v = np.where(t < self.ts, self.v - g * t, -k * r)
        return np.stack([x, v], 1), None

    def ocp(self, mp, rng):
        o = mp.OCP(n_states=2, n_controls=1)
        o.dynamics[0] = lambda x, u, t: [x[1], u[0] - self.g]
        o.running_costs[0] = lambda x, u, t: u[0]
        o.terminal_constraints[0] = lambda xf, tf, x0, t0: [xf[0], xf[1]]
        o.x00[0], o.lbu[0], o.ubu[0] = [self.h, self.v], 0, self.m
        o.xf0[0] = [0, 0]
        o.tf0[0], o.lbtf[0], o.ubtf[0] = self.T * 1.2, 0.5 * self.T, 3 * self.T
        return o


class Bryson(Simple):
    """Minimum energy below a ceiling l <= 1/6: cost 4/(9 l)"""

    tol = dict(cost=2e-2, x=2e-2, u=None)
    nx, nu = 2, 1

    def __init__(self, rng):
        self.l = float(rng.uniform(0.08, 0.16))
        self.J_opt, self.tf, self.t0 = 4 / (9 * self.l), 1.0, 0.0
        self.by_bound = rng.uniform() < 0.5

    def mesh(self, rng):
        ns = int(rng.integers(5, 9))
        return ns, [int(v) for v in rng.integers(4, 6, ns)]

    def traj(self, p, t):
        t, l = np.ravel(t), self.l
        s = np.minimum(t, 1 - t) / (3 * l)
        x = np.where(s < 1, l * (1 - np.maximum(0, 1 - s) ** 3), l)
        v = np.where(s < 1, np.maximum(0, 1 - s) ** 2, 0) * np.sign(0.5 - t)
        return np.stack([x, v], 1), None

    def ocp(self, mp, rng):
        o = mp.OCP(n_states=2, n_controls=1)
        o.dynamics[0] = lambda x, u, t: [x[1], u[0]]
        o.running_costs[0] = lambda x, u, t: 0.5 * u[0] ** 2
        o.terminal_constraints[0] = lambda xf, tf, x0, t0: [xf[0], xf[1] + 1]
        if self.by_bound:
            o.ubx[0][0] = self.l
        else:
            o.path_constraints[0] = lambda x, u, t: [x[0] - self.l]
        o.x00[0], o.xf0[0] = [0, 1], [0, -1]
        o.lbtf[0] = o.ubtf[0] = o.tf0[0] = 1
        return o


class Brachisto(Simple):
    """Brachistochrone to a point on a cycloid"""

    tol = dict(cost=1e-4, x=2e-3, u=5e-2)
    nx, nu = 3, 1

    def __init__(self, rng):
        self.g, self.r = 9.81, float(rng.uniform(0.5, 2))
        self.phi = float(rng.uniform(1.5, 3.0))  # cycloid angle at the end
        r, f = self.r, self.phi
        self.end = [r * (f - np.sin(f)), r * (1 - np.cos(f))]
        self.om = np.sqrt(self.g / r)
        self.T = self.J_opt = f / self.om
        self.t0, self.tf = 0.0, self.T

    def mesh(self, rng):
        ns = int(rng.integers(1, 3))
        return ns, [int(v) for v in rng.integers(8 if ns == 1 else 7, 12 if ns == 1 else 9, ns)]

    def traj(self, p, t):
        f = self.om * np.ravel(t)
        r = self.r
        x = np.stack([r * (f - np.sin(f)), r * (1 - np.cos(f)), 2 * r * self.om * np.sin(f / 2)], 1)
        return x, (f / 2)[:, None]

    def ocp(self, mp, rng):
        o = mp.OCP(n_states=3, n_controls=1)
        o.dynamics[0] = lambda x, u, t: [x[2] * ca.sin(u[0]), x[2] * ca.cos(u[0]), self.g * ca.cos(u[0])]
        o.terminal_costs[0] = lambda xf, tf, x0, t0: tf
        o.terminal_constraints[0] = lambda xf, tf, x0, t0: [xf[0] - self.end[0], xf[1] - self.end[1]]
        o.x00[0], o.xf0[0] = [0, 0, 0], [self.end[0], self.end[1], 2 * self.r * self.om * np.sin(self.phi / 2)]
        o.u00[0], o.uf0[0] = 0.1, 1.5
        o.lbu[0], o.ubu[0] = -0.5, np.pi
        o.tf0[0], o.lbtf[0], o.ubtf[0] = self.T * 1.1, 0.3 * self.T, 4 * self.T
        return o


FAM = dict(lq=LQ, chain=Chain, free_time=FreeTime, min_time=MinTime, landing=Landing, bryson=Bryson,
           brachisto=Brachisto)


# ------------------------------------------------------------------ the check
def run(case, mon):
    from .. import sut

    mp, CAP = sut.mp, sut.CAP
    if "probe" in case:
        return low_order(mp, CAP, mon)
    rng = np.random.default_rng(case["seed"])
    tau = [(-1, 1), (-1, 1), (0, 1)][int(rng.integers(0, 3))]
    dmat = "numerical" if rng.uniform() < 0.6 else "symbolic"
    sut.reset(tau, dmat)
    fam = FAMS[int(rng.integers(0, len(FAMS)))]
    P = FAM[fam](rng)
    for _ in range(20):
        if P.usable():
            break
        P = FAM[fam](rng)
    else:
        mon.undecided("no usable member of the family found")
    ns, orders = P.mesh(rng)
    scheme = gen.SCHEMES[int(rng.integers(0, 3))]
    kinds = ["mpopt", "mpopt", "h", "adaptive", "solve", "ph"]
    kind = str(rng.choice(kinds))
    ocp = P.ocp(mp, rng)
    scaled = rng.uniform() < 0.5
    if scaled:
        r = lambda n: 10.0 ** rng.uniform(-0.7, 0.7, n)
        ocp.scale_x, ocp.scale_u, ocp.scale_t = r(P.nx), r(P.nu), float(r(1)[0])
        if P.na:
            ocp.scale_a = r(P.na)
    with mon.sut("validate"):
        ocp.validate()
    default = rng.uniform() < 0.3  # leave the solver's options to the library
    opts = None if default else {"ipopt.max_iter": 800, "ipopt.tol": 1e-8, "ipopt.print_level": 0, "print_time": 0,
            "ipopt.acceptable_tol": 1e-7, "ipopt.sb": "yes"}
    CAP.reset("real")
    widths = None
    ctx = dict(family=fam, kind=kind, scheme=scheme, orders=orders, interval=tau, method=dmat,
               scaled=scaled, problem=P.describe())
    mon.nontrivial(fam, kind, scheme, orders, P.describe())
    mon.sample(family=fam, kind=kind, scheme=scheme, orders=orders, problem=P.describe())
    with mon.sut("solving a problem with a known optimum (%s, %s)" % (fam, kind)):
        if kind == "solve":
            o, post = mp.solve(ocp, n_segments=ns, poly_orders=list(orders), scheme=scheme, plot=False,
                               **({} if default else {"solve_dict": {"nlp_solver_options": opts}}))
            sol = CAP.log[-1][1].result
        else:
            cls = dict(mpopt=mp.mpopt, h=mp.mpopt_h_adaptive, adaptive=mp.mpopt_adaptive,
                       ph=mp.mpopt_ph_adaptive)[kind]
            o = cls(ocp, ns, list(orders), scheme)
            kw = {} if default else dict(nlp_solver_options=opts)
            if kind == "mpopt" or (kind == "ph" and rng.uniform() < 0.5):
                if kind == "mpopt" and rng.uniform() < 0.6:
                    widths = gen.make_widths(rng, ns, P.nph, floor=0.7)
                    kw["mpopt_options"] = {"nlp_sw_params": widths.ravel().tolist()}
                sol = o.solve(**kw)
            elif kind == "h":
                m = [{}, {"method": "control_slope"}, {"method": "residual", "sub_method": "equal_area"},
                     {"method": "residual", "sub_method": "merge_split"}][int(rng.integers(0, 4))]
                sol = o.solve(max_iter=int(rng.integers(1, 4)), mpopt_options=m, **kw)
            elif kind == "adaptive":
                # keep the widths near the ones the mesh was chosen for
                o.lbh, o.ubh = [0.6 / ns] * P.nph, [1.6 / ns if ns > 1 else 1.0] * P.nph
                sol = o.solve(**kw)
            else:
                sol = o.solve_ph(max_iter=1, solve_dict=kw)
            post = None
    st = CAP.solvers[-1].stats()
    if st.get("return_status") != "Solve_Succeeded":
        mon.event("unsolved_" + str(st.get("return_status")))
        mon.event("unsolved")
        mon.event("unsolved_%s_%s" % (fam, kind))
        if fam in ("lq", "chain") and kind != "adaptive":
            mon.check(not any(w in str(st.get("return_status")) for w in ("Infeasible", "Invalid", "Restoration")),
                      "unsolvable", "convex problem with a known solution cannot be solved",
                      status=st.get("return_status"), **ctx)
        return
    if default and kind != "adaptive":  # its problem is not convex
        polished(mon, CAP, ctx)
    elif kkt(CAP) > 1e-4:
        mon.event("inexact_kkt")  # the solver's success is wrong: dependent constraints
        return
    mon.event("solved")
    if post is None:
        with mon.sut("processing a solution"):
            post = o.process_results(sol, plot=False)
    mon.event("fam_" + fam)
    mon.event("kind_" + kind)
    mon.event("multi_phase", P.nph > 1)
    mon.event("scaled", scaled)
    mon.event("params", P.na > 0)
    mon.event("unequal_widths", widths is not None)
    loose, low = 1.0, False
    tol = P.tol
    if fam == "chain" and scheme == "CGL":
        tol = LQ.tol  # the rule is not exact for the square of the control
    if scheme == "CGL":  # same
        tol = dict(tol, cost=max(3e-3, tol["cost"]))
    if scheme != "LGR" and ns > 1:
        # The dynamics are imposed once at a node shared by two segments, the quadrature of
        # LGL and CGL weighs it in both: low order (see DESIGN.md)
        mon.event("low_order")
        low = True
        tol = dict(cost=max(0.3, tol["cost"]), x=max(0.3, tol["x"]), u=None)
    if kind in ("h", "adaptive"):
        loose = 5.0
    J = float(arr(sol["f"]).ravel()[0])
    mon.close(J, P.J_opt, "cost", "optimal cost", rtol=0,
              atol=loose * tol["cost"] * max(1.0, abs(P.J_opt)), **ctx)
    with mon.sut("data of the solution"):
        D = [[arr(v) for v in post.get_data(phases=[p], interpolate=i)[:4]] for i in (False, True)
             for p in range(P.nph)]
    for k, (x, u, t, a) in enumerate(D):
        p = k % P.nph
        t = np.ravel(t)
        what = "interpolated" if k >= P.nph else "original"
        X, U = P.traj(p, t)
        xm = max(1.0, np.abs(X).max())
        mon.close(x, X, "states", "optimal states (%s)" % what, rtol=0, atol=loose * tol["x"] * xm, phase=p, **ctx)
        if tol["u"] is not None:
            mon.close(u, U, "controls", "optimal controls (%s)" % what, rtol=0,
                      atol=loose * tol["u"] * max(1.0, np.abs(U).max()), phase=p, **ctx)
        if P.params is not None and P.na:
            mon.close(np.ravel(a), P.params[p], "params", "optimal parameters (%s)" % what, rtol=0,
                      atol=loose * tol["x"] * max(1.0, np.abs(P.params).max()), phase=p, **ctx)
        if hasattr(P, "tf") and p == P.nph - 1:
            mon.close(t[-1], P.tf, "tf", "final time", rtol=0,
                      atol=loose * max(tol["cost"], 1e-3) * P.tf * 1.5, **ctx)
        if hasattr(P, "cuts"):
            mon.close([t[0], t[-1]], P.cuts[p:p + 2], "times", "phase times", rtol=0, atol=1e-6, phase=p, **ctx)


def kkt(CAP):
    """Stationarity of the answer, from the captured NLP and the returned multipliers"""
    s, c = CAP.log[-1]
    z, p = s.nlp["x"], s.nlp.get("p", ca.SX(0, 1))
    f = ca.Function("k", [z, p], [ca.jacobian(s.nlp["g"], z), ca.gradient(s.nlp["f"], z)])
    J, gr = [np.array(v) for v in f(c.result["x"], c.inputs.get("p", []))]
    r = gr.ravel() + J.T @ np.ravel(arr(c.result["lam_g"])) + np.ravel(arr(c.result["lam_x"]))
    return float(np.abs(r).max() / max(1.0, np.abs(gr).max()))


def polished(mon, CAP, ctx):
    """The default options are to solve the problem, not only to stop: the same problem solved
    further, from the answer, keeps the cost"""
    s, c = CAP.log[-1]
    z = arr(c.result["x"]).ravel()
    S = ca.nlpsol("p", "ipopt", s.nlp, {"ipopt.tol": 1e-9, "ipopt.print_level": 0, "print_time": 0,
                                        "ipopt.max_iter": 300, "ipopt.sb": "yes"})
    kw = {k: c.inputs[k] for k in ("lbx", "ubx", "lbg", "ubg", "p") if c.inputs.get(k) is not None}
    r = S(x0=z, **kw)
    if S.stats()["return_status"] != "Solve_Succeeded":
        mon.event("unpolished")
        return
    mon.event("polished")
    J, Jp = (float(arr(v["f"]).ravel()[0]) for v in (c.result, r))
    g = ca.Function("g", [s.nlp["x"], s.nlp.get("p", ca.SX(0, 1))], [s.nlp["g"]])
    g = arr(g(z, c.inputs.get("p", []))).ravel()
    lo, hi = [arr(c.inputs[k]).ravel() * np.ones(len(g)) for k in ("lbg", "ubg")]
    out = max(0.0, float(np.max(np.maximum(lo - g, g - hi), initial=0)))
    mon.close(J, Jp, "polish", "optimal cost of the discrete problem", rtol=0,
              atol=3e-4 * max(1.0, abs(Jp)), **ctx)
    mon.check(out < 1e-4, "polish_feasible", "violation of the constraints", got=out, **ctx)


def low_order(mp, CAP, mon):
    """Double integrator from rest at 0 to rest at 1 in unit time: cost 6, cubic solution"""
    from .. import sut

    sut.reset((-1, 1), "numerical")
    for scheme in gen.SCHEMES:
        for orders in ([6], [6, 6, 6]):
            o = mp.OCP(n_states=2, n_controls=1)
            o.dynamics[0] = lambda x, u, t: [x[1], u[0]]
            o.running_costs[0] = lambda x, u, t: 0.5 * u[0] ** 2
            o.terminal_constraints[0] = lambda xf, tf, x0, t0: [xf[0] - 1, xf[1]]
            o.lbtf[0] = o.ubtf[0] = o.tf0[0] = 1
            CAP.reset("real")
            with mon.sut("double integrator"):
                J = float(arr(mp.mpopt(o, len(orders), orders, scheme).solve()["f"]).ravel()[0])
            key = "double_integrator"
            if scheme != "LGR" and len(orders) > 1 and abs(J - 6) < 0.3:
                key = "low_order_%s_6_6_6" % scheme  # known finding
            mon.close(J, 6.0, key, "optimal cost of the double integrator", rtol=0, atol=1e-3,
                      scheme=scheme, orders=orders)
