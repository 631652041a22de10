"""Independent reference model (numpy only): nodes, matrices and the NLP that a
problem has to be transcribed to.  Shares no code with the library."""
import numpy as np
from numpy.polynomial import legendre as L


# ------------------------------------------------------------------- 1-D numerics
def nodes(scheme, p, tau0=-1.0, tau1=1.0):
    """p+1 nodes; LGR: start point plus the p Radau points that include the end"""
    if p == 1:
        r = np.array([-1.0, 1.0])
    elif scheme == "CGL":
        r = -np.cos(np.pi * np.arange(p + 1) / p)
    else:
        if scheme == "LGL":
            c = L.legder(np.eye(p + 1)[p])  # P_p'
        elif scheme == "LGR":
            c = np.eye(p + 1)[p - 1] - np.eye(p + 1)[p]  # P_{p-1} - P_p
        else:
            raise ValueError(scheme)
        x = np.sort(np.real(L.legroots(c)))
        d = L.legder(c)
        for _ in range(4):
            x = x - L.legval(x, c) / L.legval(x, d)
        if scheme == "LGL":
            r = np.concatenate([[-1.0], x, [1.0]])
        else:
            x[-1] = 1.0
            r = np.concatenate([[-1.0], x])
    return tau0 + (tau1 - tau0) * (r + 1) / 2.0


def bary(x):
    x = np.asarray(x, float)
    c = (x.max() - x.min()) / 4.0 if len(x) > 1 else 1.0
    d = (x[:, None] - x[None, :]) / c
    np.fill_diagonal(d, 1.0)
    return 1.0 / np.prod(d, axis=1)


def interp(x, xi):
    """Lagrange interpolation matrix from nodes x to points xi"""
    x, xi = np.asarray(x, float), np.atleast_1d(np.asarray(xi, float))
    w = bary(x)
    C = np.zeros((len(xi), len(x)))
    for k, t in enumerate(xi):
        d = t - x
        j = np.where(np.abs(d) < 1e-14 * max(1.0, np.abs(x).max()))[0]
        if len(j):
            C[k, j[0]] = 1.0
        else:
            q = w / d
            C[k] = q / q.sum()
    return C


def diff(x):
    x = np.asarray(x, float)
    w = bary(x)
    n = len(x)
    D = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if i != j:
                D[i, j] = w[j] / w[i] / (x[i] - x[j])
        D[i, i] = -D[i].sum()
    return D


def diff_at(x, xi, order=1):
    D = diff(x)
    M = D.copy()
    for _ in range(order - 1):
        M = M @ D
    return interp(x, xi) @ M


def weights(x, a=None, b=None):
    """Integrals of the Lagrange polynomials on x over [a, b]"""
    x = np.asarray(x, float)
    a = x[0] if a is None else a
    b = x[-1] if b is None else b
    g, w = L.leggauss(len(x) // 2 + 2)
    return (w * (b - a) / 2.0) @ interp(x, a + (b - a) * (g + 1) / 2.0)


# ----------------------------------------------------------------------- the NLP
class Mesh:
    def __init__(self, scheme, orders, tau0=-1.0, tau1=1.0):
        self.scheme, self.orders = scheme, [int(p) for p in orders]
        self.tau0, self.tau1 = float(tau0), float(tau1)
        self.len = self.tau1 - self.tau0
        self.ns = len(self.orders)
        self.N = sum(self.orders) + 1
        self.start = [sum(self.orders[:i]) for i in range(self.ns)]
        uniq = {p: nodes(scheme, p, tau0, tau1) for p in set(self.orders)}
        self.x = [uniq[p] for p in self.orders]
        self.D = [diff(x) for x in self.x]
        self.w = [weights(x, self.tau0, self.tau1) for x in self.x]
        self.mid = [(x[1:] + x[:-1]) / 2.0 for x in self.x]

    def seg(self, i):
        return slice(self.start[i], self.start[i] + self.orders[i] + 1)

    def times(self, t0, tf, wd):
        t = np.zeros(self.N)
        c = np.concatenate([[0.0], np.cumsum(wd)])
        for i in range(self.ns):
            t[self.seg(i)] = t0 + (tf - t0) * (
                c[i] + wd[i] * (self.x[i] - self.tau0) / self.len)
        return t


class Traj:
    """Unscaled trajectories of one phase"""

    def __init__(self, X, U, t0, tf, A, wd):
        self.X, self.U, self.t0, self.tf, self.A, self.wd = X, U, t0, tf, A, wd


class RefNLP:
    def __init__(self, spec, mesh, kind="mpopt", tol_residual=1e-3, lbh=1e-4, ubh=1.0,
                 mid_residuals=True):
        self.s, self.m, self.kind = spec, mesh, kind
        self.adaptive = kind == "adaptive"
        per = lambda v: np.broadcast_to(np.asarray(v, float), (spec.nph,)).astype(float)
        self.tol, self.lbh, self.ubh = per(tol_residual), per(lbh), per(ubh)
        self.mid_residuals = mid_residuals
        self.nz_phase = mesh.N * (spec.nx + spec.nu) + 2 + spec.na + (
            mesh.ns if self.adaptive else 0)
        self.nz = self.nz_phase * spec.nph

    # z <-> trajectories (documented order: X, U, t0, tf, A, widths per phase)
    def decode(self, z, widths=None, scaled=False):
        s, m = self.s, self.m
        out = []
        for p in range(s.nph):
            zp = np.asarray(z, float)[p * self.nz_phase : (p + 1) * self.nz_phase]
            k = m.N * s.nx
            X = zp[:k].reshape(s.nx, m.N).T
            U = zp[k : k + m.N * s.nu].reshape(s.nu, m.N).T
            k += m.N * s.nu
            t0, tf, A = zp[k], zp[k + 1], zp[k + 2 : k + 2 + s.na]
            k += 2 + s.na
            wd = zp[k:] if self.adaptive else np.asarray(widths)[p]
            if scaled:
                out.append(Traj(X, U, t0, tf, A, wd))
            else:
                out.append(Traj(X / s.scale_x, U / s.scale_u, t0 / s.scale_t,
                                tf / s.scale_t, A / s.scale_a, wd))
        return out

    def encode(self, trajs):
        s = self.s
        z = []
        for T in trajs:
            z += [(T.X * s.scale_x).T.ravel(), (T.U * s.scale_u).T.ravel(),
                  [T.t0 * s.scale_t, T.tf * s.scale_t], T.A * s.scale_a]
            if self.adaptive:
                z.append(T.wd)
        return np.concatenate(z)

    def random_z(self, rng, amp=1.5, sum_one=True):
        s, m = self.s, self.m
        tr = []
        for p in range(s.nph):
            wd = rng.uniform(0.1, 1, m.ns)
            tr.append(Traj(rng.uniform(-amp, amp, (m.N, s.nx)),
                           rng.uniform(-amp, amp, (m.N, s.nu)),
                           float(s.t00[p, 0] + rng.uniform(-0.2, 0.2)),
                           float(s.tf0[p, 0] + rng.uniform(0.0, 0.6)),
                           rng.uniform(-amp, amp, s.na),
                           wd / (wd.sum() if sum_one else 0.5 * m.ns)))
        return self.encode(tr)

    # ---- objective -----------------------------------------------------------
    def objective(self, z, widths=None):
        """value, and a magnitude for the tolerance"""
        s, m = self.s, self.m
        J = mag = 0.0
        for p, T in enumerate(self.decode(z, widths)):
            t = m.times(T.t0, T.tf, T.wd)
            if s.mayer[p] is not None:
                v = s.mayer[p](s.targs(T.X[-1], T.tf, T.X[0], T.t0, T.A), np.sin)
                J += v
                mag += abs(v)
            if s.run[p] is not None:
                for i in range(m.ns):
                    h = (T.tf - T.t0) / m.len * T.wd[i]
                    for k, n in enumerate(range(*m.seg(i).indices(m.N))):
                        q = h * m.w[i][k] * s.run[p](
                            s.args(T.X[n], T.U[n], t[n], T.A), np.sin)
                        J += q
                        mag += abs(q) + abs(h * s.run[p](
                            s.args(T.X[n], T.U[n], t[n], T.A), np.sin)) * 0.05
        return J, mag

    # ---- constraints -----------------------------------------------------------
    def rows(self, z, widths=None):
        """{category: (values, lower, upper)}"""
        s, m = self.s, self.m
        R = {}

        def add(cat, v, lo, hi):
            R.setdefault(cat, []).append(
                (np.ravel(v), np.broadcast_to(np.asarray(lo, float), np.shape(v)).ravel(),
                 np.broadcast_to(np.asarray(hi, float), np.shape(v)).ravel()))

        TR = self.decode(z, widths)
        for p, T in enumerate(TR):
            t = m.times(T.t0, T.tf, T.wd)
            fx = lambda X, U, tt: np.array(
                [[e(s.args(X[k], U[k], tt[k], T.A), np.sin) for e in s.dyn[p]]
                 for k in range(len(tt))]).reshape(len(tt), s.nx)
            F = fx(T.X, T.U, t)
            for i in range(m.ns):
                sl = m.seg(i)
                h = (T.tf - T.t0) / m.len * T.wd[i]
                r = (m.D[i] @ T.X[sl] - h * F[sl]) * s.scale_x
                add("dynamics", r if i == 0 else r[1:], 0.0, 0.0)
            if s.npath[p]:
                add("path", np.array(
                    [[e(s.args(T.X[k], T.U[k], t[k], T.A), np.sin) for e in s.path[p]]
                     for k in range(m.N)]), -np.inf, 0.0)
            if s.nterm[p]:
                add("terminal", np.array(
                    [e(s.targs(T.X[-1], T.tf, T.X[0], T.t0, T.A), np.sin)
                     for e in s.term[p]]), 0.0, 0.0)
            if s.diff_u[p]:
                for i in range(m.ns):
                    h = (T.tf - T.t0) / m.len * T.wd[i]
                    r = m.D[i] @ T.U[m.seg(i)] / h
                    add("slope", r if i == 0 else r[1:], s.lbdu[p], s.ubdu[p])
            if s.midu[p] or self.adaptive:
                for i in range(m.ns):
                    I = interp(m.x[i], m.mid[i])
                    sl = m.seg(i)
                    add("midu", I @ T.U[sl] * s.scale_u, s.lbu[p] * s.scale_u,
                        s.ubu[p] * s.scale_u)
            if self.adaptive:
                add("width_sum", np.array([T.wd.sum() - 1.0]), 0.0, 0.0)
                for i in range(m.ns):
                    I = interp(m.x[i], m.mid[i])
                    sl = m.seg(i)
                    Xm, Um = I @ T.X[sl], I @ T.U[sl]
                    add("midx", Xm * s.scale_x, s.lbx[p] * s.scale_x, s.ubx[p] * s.scale_x)
                    if self.mid_residuals:
                        h = (T.tf - T.t0) / m.len * T.wd[i]
                        tm = (t[sl][1:] + t[sl][:-1]) / 2.0
                        r = T.wd[i] * (
                            interp(m.x[i], m.mid[i]) @ (m.D[i] @ T.X[sl])
                            - h * fx(Xm, Um, tm)) * s.scale_x
                        add("midres", r, -self.tol[p], self.tol[p])
            if s.du_continuity[p] and m.ns > 1:
                for i in range(m.ns - 1):
                    e = (m.D[i] @ T.U[m.seg(i)])[-1] / T.wd[i]
                    b = (m.D[i + 1] @ T.U[m.seg(i + 1)])[0] / T.wd[i + 1]
                    add("continuity", (e - b) * s.scale_u * T.wd[i] * T.wd[i + 1], 0.0, 0.0)
        if s.nph > 1:
            for k, (i, j) in enumerate(s.links):
                add("link_x", (TR[j].X[0] - TR[i].X[-1]) * s.scale_x,
                    s.lbe[k] * s.scale_x, s.ube[k] * s.scale_x)
                add("link_u", (TR[j].U[0] - TR[i].U[-1]) * s.scale_u, 0.0, 0.0)
                add("link_t", np.array([TR[j].t0 - TR[i].tf]) * s.scale_t, 0.0, 0.0)
        return {c: tuple(np.concatenate([q[k] for q in v]) for k in range(3))
                for c, v in R.items()}

    # ---- variable bounds -----------------------------------------------------
    def bounds(self):
        s, m = self.s, self.m
        lo, hi = [], []
        for p in range(s.nph):
            for B, out in ((("lbx", "lbu", "lbt0", "lbtf", "lba"), lo),
                           (("ubx", "ubu", "ubt0", "ubtf", "uba"), hi)):
                X = np.tile(getattr(s, B[0])[p] * s.scale_x, (m.N, 1))
                if p == 0:
                    X[0] = s.x00[0] * s.scale_x
                U = np.tile(getattr(s, B[1])[p] * s.scale_u, (m.N, 1))
                out += [X.T.ravel(), U.T.ravel(), getattr(s, B[2])[p] * s.scale_t,
                        getattr(s, B[3])[p] * s.scale_t, getattr(s, B[4])[p] * s.scale_a]
                if self.adaptive:
                    out.append(np.full(m.ns, (self.lbh if out is lo else self.ubh)[p]))
        return np.concatenate(lo), np.concatenate(hi)

    def guess(self):
        """Linear between the guessed end values, by node index"""
        s, m = self.s, self.m
        tr = []
        q = np.linspace(0, 1, m.N)[:, None]
        for p in range(s.nph):
            tr.append(Traj(s.x00[p] + (s.xf0[p] - s.x00[p]) * q,
                           s.u00[p] + (s.uf0[p] - s.u00[p]) * q,
                           s.t00[p, 0], s.tf0[p, 0], s.a0[p], np.full(m.ns, 1.0 / m.ns)))
        return self.encode(tr)


# ------------------------------------------------------------- multiset comparison
def canon(V, lo, hi):
    """V: rows x points.  Drop vacuous rows, shift by a finite bound, fix the sign"""
    V, lo, hi = np.array(V, float), np.array(lo, float), np.array(hi, float)
    keep = np.isfinite(lo) | np.isfinite(hi)
    idx = np.where(keep)[0]
    V, lo, hi = V[idx], lo[idx], hi[idx]
    sg = np.where(V[:, 0] < 0, -1.0, 1.0)
    eq = lo == hi
    # shift equality rows so that their bound is zero, then sign
    V = np.where(eq[:, None], V - np.where(eq, lo, 0.0)[:, None], V)
    sg = np.where(V[:, 0] < 0, -1.0, 1.0)
    lo = np.where(eq, 0.0, lo)
    hi = np.where(eq, 0.0, hi)
    V = V * sg[:, None]
    lo, hi = np.where(sg > 0, lo, -hi), np.where(sg > 0, hi, -lo)
    return V, lo, hi, idx


def match(expected, got, rtol=1e-6, atol=1e-7):
    """Greedy one-to-one matching of canonical rows.
    Returns (unmatched expected, unmatched got)"""
    Ve, le, he, ie = expected
    Vg, lg, hg, ig = got
    ge = np.concatenate([Vg, np.nan_to_num(np.stack([lg, hg], 1), posinf=1e30, neginf=-1e30)], 1)
    ee = np.concatenate([Ve, np.nan_to_num(np.stack([le, he], 1), posinf=1e30, neginf=-1e30)], 1)
    free = np.ones(len(ge), bool)
    order = np.argsort(ge[:, 0], kind="stable") if len(ge) else np.array([], int)
    keys = ge[order, 0] if len(ge) else np.array([])
    miss = []
    for r in range(len(ee)):
        v = ee[r]
        tol = atol + rtol * np.abs(v)
        a = np.searchsorted(keys, v[0] - tol[0], "left")
        b = np.searchsorted(keys, v[0] + tol[0], "right")
        hit = None
        for q in order[a:b]:
            if free[q] and np.all(np.abs(ge[q] - v) <= tol):
                hit = q
                break
        if hit is None:
            miss.append(int(ie[r]))
        else:
            free[hit] = False
    return miss, [int(ig[q]) for q in np.where(free)[0]]
