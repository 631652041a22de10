"""Random optimal control problems, kept as plain data so that the reference model
can evaluate them without going through the code under test."""
import numpy as np

SCHEMES = ("LGR", "LGL", "CGL")


class Expr:
    """c + linear + quadratic + sines over a flat list of arguments"""

    def __init__(self, rng, n, dense=0.8, mag=1.0, nl=True, const=True):
        r = lambda *s: np.round(rng.uniform(-mag, mag, s), 3)
        self.n = n
        self.c = float(r()) if const else 0.0
        self.lin = r(n) * (rng.uniform(size=n) < dense)
        self.quad, self.sin = [], []
        if nl and n:
            for _ in range(rng.integers(0, 3)):
                i, j = rng.integers(0, n, 2)
                self.quad.append((int(i), int(j), float(r())))
            for _ in range(rng.integers(0, 3)):
                self.sin.append((int(rng.integers(0, n)), float(r()),
                                 float(np.round(rng.uniform(0.3, 1.7), 3))))

    def __call__(self, v, sin):
        s = self.c
        for i in range(self.n):
            if self.lin[i] != 0:
                s = s + float(self.lin[i]) * v[i]
        for i, j, q in self.quad:
            s = s + q * v[i] * v[j]
        for i, q, w in self.sin:
            s = s + q * sin(w * v[i])
        return s

    def describe(self):
        return dict(c=self.c, lin=self.lin.tolist(), quad=self.quad, sin=self.sin)


class Spec:
    """One optimal control problem"""

    def args(self, x, u, t, a):
        return (
            [x[i] for i in range(self.nx)] + [u[i] for i in range(self.nu)] + [t]
            + [a[i] for i in range(self.na)]
        )

    def targs(self, xf, tf, x0, t0, a):
        return (
            [xf[i] for i in range(self.nx)] + [tf] + [x0[i] for i in range(self.nx)]
            + [t0] + [a[i] for i in range(self.na)]
        )

    def describe(self):
        return dict(nx=self.nx, nu=self.nu, na=self.na, n_phases=self.nph,
                    npath=self.npath, nterm=self.nterm, links=self.links,
                    scale_x=self.scale_x, scale_u=self.scale_u, scale_a=self.scale_a,
                    scale_t=self.scale_t, diff_u=self.diff_u, midu=self.midu,
                    du_continuity=self.du_continuity,
                    unset=sorted(self.unset), style=self.style)


def _scale(rng, n, on):
    if not on:
        return np.ones(n)
    return np.round(10.0 ** rng.uniform(-1.3, 1.3, n), 4)


def _bounds(rng, shape, p_inf=0.35):
    lo = np.round(rng.uniform(-6, -0.5, shape), 3)
    hi = np.round(rng.uniform(0.5, 6, shape), 3)
    lo[rng.uniform(size=shape) < p_inf] = -np.inf
    hi[rng.uniform(size=shape) < p_inf] = np.inf
    # bounds at zero, on one side of zero, or equal
    kind = rng.uniform(size=shape)
    q = np.round(rng.uniform(0.1, 2, shape), 3)
    lo = np.where(kind < 0.12, 0.0, lo)
    hi = np.where((kind >= 0.12) & (kind < 0.2), 0.0, hi)
    lo = np.where((kind >= 0.2) & (kind < 0.25), q, lo)
    hi = np.where((kind >= 0.2) & (kind < 0.25), q + 1, hi)
    lo = np.where((kind >= 0.25) & (kind < 0.3), -q - 1, lo)
    hi = np.where((kind >= 0.25) & (kind < 0.3), -q, hi)
    eq = (kind >= 0.3) & (kind < 0.34)
    v = np.where(rng.uniform(size=shape) < 0.3, 0.0, q)
    return np.where(eq, v, lo), np.where(eq, v, hi)


def make_spec(rng, nph=None, nx=None, nu=None, na=None, scaling=None, flags=True,
              max_ph=3, links="default", mag=1.0, path=None, term=None, const_dyn=True,
              defaults=False, max_nx=4, max_nu=3, max_na=3, max_con=3, long_times=0.1):
    s = Spec()
    ri = lambda a, b: int(rng.integers(a, b + 1))
    s.nph = ri(1, max_ph) if nph is None else nph
    s.nx = ri(1, max_nx) if nx is None else nx
    s.nu = ri(1, max_nu) if nu is None else nu
    s.na = (ri(1, max_na) if rng.uniform() < 0.5 else 0) if na is None else na
    on = (rng.uniform() < 0.6) if scaling is None else scaling
    s.scale_x, s.scale_u, s.scale_a = (_scale(rng, n, on) for n in (s.nx, s.nu, s.na))
    s.scale_t = float(np.round(10.0 ** rng.uniform(-1, 1), 4)) if on else 1.0

    nv = s.nx + s.nu + 1 + s.na
    nt = 2 * s.nx + 2 + s.na
    s.dyn = [[Expr(rng, nv, mag=mag) for _ in range(s.nx)] for _ in range(s.nph)]
    s.unset, s.nodyn = set(), []
    if rng.uniform() < 0.25:
        # a state whose derivative is a plain number
        p, i = ri(0, s.nph - 1), ri(0, s.nx - 1)
        e = s.dyn[p][i]
        if const_dyn:
            e.lin[:] = 0
            e.quad, e.sin = [], []
    s.run = [Expr(rng, nv, mag=mag) for _ in range(s.nph)]
    s.mayer = [Expr(rng, nt, mag=mag) for _ in range(s.nph)]
    for p in range(s.nph):
        if rng.uniform() < 0.15:
            s.run[p] = None
        if rng.uniform() < 0.2:
            s.mayer[p] = None
    pick = lambda v, p: (ri(1, max_con) if rng.uniform() < p else 0) if v is None else v
    s.npath = [pick(path, 0.6) for _ in range(s.nph)]
    s.nterm = [pick(term, 0.6) for _ in range(s.nph)]
    s.path = [[Expr(rng, nv, mag=mag) for _ in range(n)] for n in s.npath]
    s.term = [[Expr(rng, nt, mag=mag) for _ in range(n)] for n in s.nterm]

    sh = lambda n: (s.nph, n)
    s.lbx, s.ubx = _bounds(rng, sh(s.nx))
    s.lbu, s.ubu = _bounds(rng, sh(s.nu), 0.25)
    s.lba, s.uba = _bounds(rng, sh(s.na))
    s.x00 = np.round(rng.uniform(-2, 2, sh(s.nx)), 3)
    s.xf0 = np.round(rng.uniform(-2, 2, sh(s.nx)), 3)
    s.u00 = np.round(rng.uniform(-2, 2, sh(s.nu)), 3)
    s.uf0 = np.round(rng.uniform(-2, 2, sh(s.nu)), 3)
    s.a0 = np.round(rng.uniform(-2, 2, sh(s.na)), 3)
    cuts = np.cumsum(np.round(rng.uniform(0.4, 2, s.nph + 1), 3))
    base = np.round(rng.uniform(-1, 1), 3) if rng.uniform() < 0.3 else 0.0
    s.long = rng.uniform() < long_times
    if s.long:  # long phases, far from zero
        cuts = cuts * 60
        base = base * 300
    s.t00 = (base + cuts[:-1] - cuts[0]).reshape(-1, 1)
    s.tf0 = (base + cuts[1:] - cuts[0]).reshape(-1, 1)
    s.lbt0 = s.t00 - np.round(rng.uniform(0, 0.3, sh(1)), 3)
    s.ubt0 = s.t00 + np.round(rng.uniform(0, 0.3, sh(1)), 3)
    s.lbtf = s.tf0 - np.round(rng.uniform(0, 0.3, sh(1)), 3)
    s.ubtf = s.tf0 + np.round(rng.uniform(0, 0.3, sh(1)), 3)
    if rng.uniform() < 0.3:
        s.ubtf[-1] = np.inf
    for lo, hi, v in ((s.lbt0, s.ubt0, s.t00), (s.lbtf, s.ubtf, s.tf0)):
        fix = rng.uniform(size=sh(1)) < 0.2  # prescribed times
        lo[fix] = hi[fix] = v[fix]
    s.links = [(i, i + 1) for i in range(s.nph - 1)]
    if links == "random" and s.nph > 1:
        pairs = [(i, j) for i in range(s.nph) for j in range(s.nph) if i != j]
        k = ri(1, s.nph - 1)
        s.links = [pairs[i] for i in rng.permutation(len(pairs))[:k]]
    nl = s.nph - 1
    s.lbe = np.zeros((nl, s.nx))
    s.ube = np.zeros((nl, s.nx))
    for l in range(nl):
        for i in range(s.nx):
            c = rng.uniform()
            if c < 0.25:
                s.lbe[l, i], s.ube[l, i] = -0.7, 0.4
            elif c < 0.5:
                s.lbe[l, i] = s.ube[l, i] = np.round(rng.uniform(-1, 1), 2)
            elif c < 0.6:
                s.lbe[l, i], s.ube[l, i] = [(-np.inf, 0.25), (0.3, np.inf), (0.0, 0.5), (-0.5, 0.0),
                                            (-np.inf, 0.0), (0.0, np.inf)][ri(0, 5)]
    f = lambda p: (rng.uniform(size=s.nph) < p).astype(int)
    s.diff_u = f(0.4) if flags else np.zeros(s.nph, int)
    s.midu = f(0.6) if flags else np.zeros(s.nph, int)
    s.du_continuity = f(0.4) if flags else np.zeros(s.nph, int)
    s.lbdu = -np.round(rng.uniform(0.3, 4, s.nph), 2)
    s.ubdu = np.round(rng.uniform(0.3, 4, s.nph), 2)
    one = rng.uniform(size=s.nph)
    s.lbdu = np.where(one < 0.1, 0.0, np.where(one > 0.95, -np.inf, s.lbdu))
    s.ubdu = np.where((one >= 0.1) & (one < 0.2), 0.0, np.where((one > 0.9) & (one <= 0.95), np.inf, s.ubdu))
    s.style = ("whole", "rows", "items")[ri(0, 2)]
    if defaults and rng.uniform() < 0.35:
        leave_unset(rng, s)
    return s


# What the documentation says an attribute is when it is not assigned
def default_value(s, k):
    full = lambda n, v: np.full((s.nph, n), float(v))
    if k in ("scale_x", "scale_u", "scale_a"):
        return np.ones(getattr(s, "n" + k[-1]))
    if k == "scale_t":
        return 1.0
    if k in ("x00", "xf0", "u00", "uf0", "a0"):
        return full(getattr(s, "n" + k[0]), 0)
    if k in ("lbx", "lbu", "lba"):
        return full(getattr(s, "n" + k[2]), -np.inf)
    if k in ("ubx", "ubu", "uba"):
        return full(getattr(s, "n" + k[2]), np.inf)
    if k in ("t00", "lbt0", "lbtf"):
        return full(1, 0)
    if k == "tf0":
        return full(1, 1)
    if k == "ubtf":
        return full(1, np.inf)
    if k == "ubt0":
        v = full(1, np.inf)
        v[0] = 0.0
        return v
    if k in ("lbe", "ube"):
        return np.zeros((s.nph - 1, s.nx))
    if k == "links":
        return [(i, i + 1) for i in range(s.nph - 1)]
    if k in ("diff_u", "du_continuity"):
        return np.zeros(s.nph, int)
    if k == "midu":
        return np.ones(s.nph, int)
    if k == "lbdu":
        return np.full(s.nph, -15.0)
    if k == "ubdu":
        return np.full(s.nph, 15.0)
    raise KeyError(k)


GROUPS = (("lbx",), ("ubx",), ("lbu",), ("ubu",), ("lba",), ("uba",), ("lbx", "ubx"),
          ("lbu", "ubu"), ("lba", "uba"), ("x00",), ("xf0",), ("u00",), ("uf0",), ("a0",),
          ("t00", "tf0", "lbt0", "ubt0", "lbtf", "ubtf"), ("ubtf",), ("lbe", "ube"), ("links",),
          ("links", "lbe", "ube"), ("scale_x",), ("scale_u",), ("scale_a",), ("scale_t",),
          ("diff_u",), ("midu",), ("du_continuity",), ("lbdu",), ("ubdu",), ("lbdu", "ubdu"))


def leave_unset(rng, s):
    """Some attributes are not assigned: the documented defaults hold"""
    for i in rng.permutation(len(GROUPS))[: int(rng.integers(1, 8))]:
        for k in GROUPS[i]:
            s.unset.add(k)
            setattr(s, k, default_value(s, k))
    if rng.uniform() < 0.15:
        p = int(rng.integers(0, s.nph))
        s.nodyn.append(p)
        for e in s.dyn[p]:
            e.c, e.quad, e.sin = 0.0, [], []
            e.lin[:] = 0


def assign(obj, s, k, v):
    """The usual ways to fill in an attribute"""
    if s.style == "rows" and np.ndim(v) == 2 and v.shape == np.shape(getattr(obj, k)):
        for p in range(len(v)):
            getattr(obj, k)[p] = [float(q) for q in v[p]]
    elif s.style == "items" and np.ndim(v) == 2 and v.shape == np.shape(getattr(obj, k)):
        for p in range(v.shape[0]):
            for i in range(v.shape[1]):
                getattr(obj, k)[p][i] = v[p, i]
    elif s.style == "items" and np.ndim(v) == 1:
        for i in range(len(v)):
            getattr(obj, k)[i] = v[i]
    else:
        setattr(obj, k, np.array(v, dtype=float))


def make_grid(rng, max_seg=4, pmin=1, pmax=6, nseg=None, same=None):
    n = int(rng.integers(1, max_seg + 1)) if nseg is None else nseg
    same = (rng.uniform() < 0.3) if same is None else same
    if same:
        return [int(rng.integers(pmin, pmax + 1))] * n
    return [int(p) for p in rng.integers(pmin, pmax + 1, n)]


def make_widths(rng, nseg, nph, floor=0.08, equal=False):
    """Fractions, summing to one in each phase, different in each phase"""
    out = []
    for _ in range(nph):
        w = np.ones(nseg) if equal else rng.uniform(floor, 1.0, nseg)
        w = w / w.sum()
        out.append(w)
    return np.array(out)


def build_ocp(mp, ca, s):
    """The same problem, in the library's own terms"""
    ocp = mp.OCP(n_states=s.nx, n_controls=s.nu, n_phases=s.nph, n_params=s.na)
    sin = ca.sin
    given = list(ocp.dynamics)
    for p in range(s.nph):
        if s.na:
            ocp.dynamics[p] = lambda x, u, t, a, p=p: [
                e(s.args(x, u, t, a), sin) for e in s.dyn[p]]
            if s.run[p] is not None:
                ocp.running_costs[p] = lambda x, u, t, a, p=p: s.run[p](
                    s.args(x, u, t, a), sin)
            if s.mayer[p] is not None:
                ocp.terminal_costs[p] = lambda xf, tf, x0, t0, a, p=p: s.mayer[p](
                    s.targs(xf, tf, x0, t0, a), sin)
            if s.npath[p]:
                ocp.path_constraints[p] = lambda x, u, t, a, p=p: [
                    e(s.args(x, u, t, a), sin) for e in s.path[p]]
            if s.nterm[p]:
                ocp.terminal_constraints[p] = lambda xf, tf, x0, t0, a, p=p: [
                    e(s.targs(xf, tf, x0, t0, a), sin) for e in s.term[p]]
        else:
            ocp.dynamics[p] = lambda x, u, t, p=p: [
                e(s.args(x, u, t, ()), sin) for e in s.dyn[p]]
            if s.run[p] is not None:
                ocp.running_costs[p] = lambda x, u, t, p=p: s.run[p](
                    s.args(x, u, t, ()), sin)
            if s.mayer[p] is not None:
                ocp.terminal_costs[p] = lambda xf, tf, x0, t0, p=p: s.mayer[p](
                    s.targs(xf, tf, x0, t0, ()), sin)
            if s.npath[p]:
                ocp.path_constraints[p] = lambda x, u, t, p=p: [
                    e(s.args(x, u, t, ()), sin) for e in s.path[p]]
            if s.nterm[p]:
                ocp.terminal_constraints[p] = lambda xf, tf, x0, t0, p=p: [
                    e(s.targs(xf, tf, x0, t0, ()), sin) for e in s.term[p]]
    for p in s.nodyn:
        ocp.dynamics[p] = given[p]
    for k in ("scale_x", "scale_u", "scale_a", "x00", "xf0", "u00", "uf0", "a0", "t00",
              "tf0", "lbx", "ubx", "lbu", "ubu", "lba", "uba", "lbt0", "ubt0", "lbtf",
              "ubtf"):
        if k not in s.unset:
            assign(ocp, s, k, getattr(s, k))
    if "scale_t" not in s.unset:
        ocp.scale_t = s.scale_t
    if "links" not in s.unset:
        ocp.phase_links = list(s.links)
    if s.nph > 1:
        for k in ("lbe", "ube"):
            if k not in s.unset:
                assign(ocp, s, k, getattr(s, k))
    for p in range(s.nph):
        for k in ("diff_u", "midu", "du_continuity", "lbdu", "ubdu"):
            if k not in s.unset:
                getattr(ocp, k)[p] = getattr(s, k)[p]
    return ocp
