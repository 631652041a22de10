"""Observation boundary: everything the optimizer hands to the NLP solver.

`casadi.nlpsol` is replaced (in this process only) by a factory returning a
proxy.  Each proxy records the NLP (f, x, g, p), plugin, options, and every call
with all of its inputs and outputs.  The proxy forwards to the real plugin
(mode "real") or answers with a point chosen by the harness (mode "fake"), which
lets the monitors drive the post-processing and adaptation code with arbitrary
"solutions" without depending on a solver's convergence.
"""
import casadi as ca
import numpy as np

_real_nlpsol = ca.nlpsol


def _np(v):
    try:
        return np.array(ca.DM(v)).astype(float).ravel(order="F").copy()
    except Exception:
        return np.array(v, dtype=float).ravel().copy()


class Call:
    def __init__(self, inputs):
        self.inputs = {k: _np(v) for k, v in inputs.items()}
        self.result = None


class Solver:
    """One solver object created by the code under test"""

    def __init__(self, cap, name, plugin, nlp, opts):
        self.cap, self.name, self.plugin = cap, name, plugin
        self.nlp, self.opts = dict(nlp), dict(opts)
        self.calls = []
        self._real = None
        self._fn = None
        if cap.mode == "real":
            self._make()

    def _make(self):
        if self._real is None:
            opts = dict(self.opts)
            opts.update(self.cap.extra_opts.get(self.plugin, {}))
            self._real = _real_nlpsol(self.name, self.plugin, self.nlp, opts)
        return self._real

    # -- evaluation of the recorded NLP ------------------------------------
    @property
    def nx(self):
        return self.nlp["x"].numel()

    @property
    def np_(self):
        if "p" not in self.nlp:
            return 0
        p = self.nlp["p"]
        return p.numel() if hasattr(p, "numel") else ca.SX(p).numel()

    def fn(self):
        if self._fn is None:
            none = type(self.nlp["x"])(0, 1)
            p, g = self.nlp.get("p", none), self.nlp.get("g", none)
            self._fn = ca.Function("nlp", [self.nlp["x"], p], [self.nlp["f"], g])
        return self._fn

    def eval(self, z, p=None):
        p = [] if p is None else p
        f, g = self.fn()(z, p)
        return float(f), np.array(g).ravel()

    # -- the solver interface ----------------------------------------------
    def __call__(self, *args, **kw):
        if self.cap.max_calls is not None and self.cap.n_calls >= self.cap.max_calls:
            raise StepBudgetExceeded(
                "more than %d NLP solves" % self.cap.max_calls
            )
        self.cap.n_calls += 1
        positional = bool(args)
        if args:
            # casadi's order of the inputs
            kw = dict(zip(("x0", "p", "lbx", "ubx", "lbg", "ubg", "lam_x0", "lam_g0"), args), **kw)
            args = ()
        c = Call(kw)
        self.calls.append(c)
        self.cap.log.append((self, c))
        if self.cap.mode == "real":
            c.result = self._make()(*args, **kw)
        else:
            x = np.asarray(self.cap.responder(self, c), dtype=float)
            f, g = self.eval(x, c.inputs.get("p"))
            # distinctive values that depend on the answer only
            k = float(np.modf(10 * np.abs(x).sum())[0])
            c.result = {
                "x": ca.DM(x),
                "f": ca.DM(f),
                "g": ca.DM(g),
                "lam_x": ca.DM(0.5 + k + np.arange(x.size)),
                "lam_g": ca.DM(0.25 + k + np.arange(g.size)),
                "lam_p": ca.DM.zeros(self.np_),
            }
        if positional:
            return tuple(c.result[k] for k in ("x", "f", "g", "lam_x", "lam_g", "lam_p"))
        return c.result

    def call(self, *a, **k):
        if len(a) == 1 and isinstance(a[0], dict) and not k:
            return self(**a[0])
        return self._make().call(*a, **k)

    def stats(self):
        return self._real.stats() if self._real is not None else {"success": True}

    def __getattr__(self, item):
        if item.startswith("__"):
            raise AttributeError(item)
        return getattr(self._make(), item)


class StepBudgetExceeded(Exception):
    pass


class Capture:
    def __init__(self):
        self.reset()

    def reset(self, mode="real", responder=None, max_calls=None):
        self.mode = mode
        self.solvers = []
        self.log = []
        self.n_calls = 0
        self.max_calls = max_calls
        self.responder = responder or (lambda s, c: c.inputs["x0"])
        self.extra_opts = {}
        return self

    @property
    def last(self):
        return self.solvers[-1]

    def nlpsol(self, name, plugin, nlp, opts=None, *rest):
        if not isinstance(nlp, dict):
            return _real_nlpsol(name, plugin, nlp, opts or {})
        s = Solver(self, name, plugin, nlp, opts or {})
        self.solvers.append(s)
        return s


CAP = Capture()


def install():
    ca.nlpsol = CAP.nlpsol
    try:
        import casadi.casadi as cc

        cc.nlpsol = CAP.nlpsol
    except Exception:
        pass
