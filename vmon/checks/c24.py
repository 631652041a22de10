"""Isolation of optimizers from each other, from the user's objects and from history"""
import copy

import casadi as ca
import numpy as np

from .. import gen, ref
from ..monitor import Abort
from ..trans import arr, case_list, random_nodes

PROPERTY = "C24"
RULE = ("random operation sequences (solve with various inputs and options, queries, "
        "post-processing) interleaved over two or three optimizers that share problem objects, "
        "mesh lists and option dictionaries, compared operation by operation with each optimizer "
        "run alone on private objects; the shared problems are changed after the optimizers were "
        "built; argument snapshots before and after every call; non-trivial = distinct sequences.")
ASSUMPTIONS = ["the module level settings (interval, way of building operators) are the same in "
               "both runs", "the solver's answers are a function of the optimizer and of its call "
               "count"]
NEED = {"operations": 1200, "compared": 900, "repeats": 200, "old_posts": 50, "shared_problem": 30,
        "snapshots": 1200, "op_solve": 200, "op_residuals": 100, "op_states": 50, "op_post": 100,
        "user_changes": 60,
        "between": 150, "left_out": 100}
CASE_LIMIT = 200
QUERIES = ["residuals", "states", "second", "post", "guess"]

FIELDS = ("scale_x", "scale_u", "scale_a", "scale_t", "x00", "xf0", "u00", "uf0", "a0", "t00",
          "tf0", "lbx", "ubx", "lbu", "ubu", "lba", "uba", "lbt0", "ubt0", "lbtf", "ubtf", "lbe",
          "ube", "phase_links", "diff_u", "midu", "du_continuity", "lbdu", "ubdu", "phases_to_plot",
          "nx", "nu", "na", "n_phases", "dynamics", "running_costs", "terminal_costs",
          "path_constraints", "terminal_constraints", "lbh", "ubh")


def cases(tier, seed):
    return case_list(tier, seed, salt=24, quick=150)


def snap(v):
    if isinstance(v, dict):
        return {k: snap(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [snap(x) for x in v]
    if isinstance(v, np.ndarray) and v.dtype == object:
        return [snap(x) for x in v]
    if isinstance(v, np.ndarray):
        return ("a", v.shape, v.tobytes())
    if hasattr(v, "full"):
        return ("dm", v.full().tobytes())
    if callable(v):
        return id(v)
    return repr(v)


def flat(v):
    """Any result -> list of arrays"""
    if v is None:
        return [np.zeros(0)]
    if isinstance(v, dict):
        return sum([flat(v[k]) for k in sorted(v, key=str)], [])
    if isinstance(v, (list, tuple)):
        return sum([flat(x) for x in v], [])
    if isinstance(v, np.ndarray) and v.dtype == object:
        return sum([flat(x) for x in v], [])
    return [np.ravel(arr(v)) if not np.isscalar(v) else np.array([float(v)])]


class World:
    """The optimizers and their users' objects"""

    def __init__(self, plan, mon, mp, CAP, only=None):
        self.mon, self.mp, self.CAP = mon, mp, CAP
        self.shared = only is None
        self.plan = plan
        self.count = {}
        self.sol, self.post, self.opt, self.ocp = {}, {}, {}, {}
        self.raw, self.meshes, self.popts = {}, {}, {}
        for k, o in enumerate(plan["opts"]):
            if only is not None and k != only:
                continue
            key = o["ocp"] if self.shared else k
            if key not in self.ocp:
                self.ocp[key] = gen.build_ocp(mp, ca, plan["specs"][o["ocp"]])
            po = self.meshes.setdefault(tuple(o["orders"]) if self.shared else k, list(o["orders"]))
            cls = dict(mpopt=mp.mpopt, h=mp.mpopt_h_adaptive, adaptive=mp.mpopt_adaptive)[o["kind"]]
            before = snap(po)
            self.opt[k] = cls(self.ocp[key], len(po), po, o["scheme"])
            self.check(snap(po) == before, "mesh_changed", "list of degrees is changed")
            if o["tol"]:
                self.opt[k].tol_residual = [o["tol"]] * plan["specs"][o["ocp"]].nph
        self.fresh = {k: self.fields(v) for k, v in self.ocp.items()}

    def check(self, c, key, msg, **kw):
        if self.shared:
            self.mon.event("snapshots")
            self.mon.check(c, key, msg, **kw)

    @staticmethod
    def fields(ocp):
        return {f: snap(getattr(ocp, f)) for f in FIELDS if hasattr(ocp, f)}

    def untouched(self, what):
        for k, v in self.ocp.items():
            now = self.fields(v)
            bad = [f for f in now if now[f] != self.fresh[k][f]]
            self.check(not bad, "problem_changed", "the user's problem is changed by " + what,
                       fields=bad)

    def user_changes(self, seed):
        """The user goes on changing the problem object"""
        rng = np.random.default_rng(seed)
        for v in self.ocp.values():
            for f in ("scale_x", "scale_u", "scale_a", "x00", "xf0", "u00", "uf0", "a0", "t00", "tf0",
                      "lbx", "ubx", "lbu", "ubu", "lba", "uba", "lbt0", "ubt0", "lbtf", "ubtf",
                      "lbe", "ube"):
                if rng.uniform() < 0.5 and isinstance(getattr(v, f), np.ndarray):
                    getattr(v, f)[...] = getattr(v, f) * 1.5 + 0.1
            if rng.uniform() < 0.5:
                v.scale_t = v.scale_t * 2
            for p in range(v.n_phases):
                for f in ("diff_u", "midu", "du_continuity"):
                    if rng.uniform() < 0.5:
                        getattr(v, f)[p] = 1 - getattr(v, f)[p]
                v.lbdu[p], v.ubdu[p] = v.lbdu[p] - 1, v.ubdu[p] + 1
                if rng.uniform() < 0.5:
                    old = v.dynamics[p]
                    v.dynamics[p] = lambda *a, o=old: [2 * e + 1 for e in o(*a)]
                if rng.uniform() < 0.5:
                    old = v.running_costs[p]
                    v.running_costs[p] = lambda *a, o=old: o(*a) + 3
            if v.n_phases > 1:
                v.phase_links.append((0, v.n_phases - 1))
        self.fresh = {k: self.fields(v) for k, v in self.ocp.items()}
        self.mon.event("user_changes")

    def respond(self, k):
        o = self.plan["opts"][k]

        def f(solver, call):
            n = self.count[k] = self.count.get(k, 0) + 1
            return o["ref"].random_z(np.random.default_rng([o["seed"], n]))
        return f

    def go(self, op):
        """One operation -> list of arrays"""
        k, what, seed = op["opt"], op["what"], op["seed"]
        rng = np.random.default_rng(seed)
        o, plan = self.plan["opts"][k], self.plan
        sp, m = plan["specs"][o["ocp"]], o["mesh"]
        opt = self.opt[k]
        CAP = self.CAP
        args = ()
        out = None
        mute = self.mon.sut("%s (%s optimizer)" % (what, o["kind"]))
        if what == "solve":
            CAP.mode, CAP.responder, CAP.max_calls = "fake", self.respond(k), None
            kw = {}
            init = None
            if k in self.sol and rng.uniform() < 0.6:
                init = self.sol[k]
            elif rng.uniform() < 0.3:
                init = {"x0": o["ref"].random_z(rng)}
            if init is not None:
                kw["initial_solution"] = init
            if rng.uniform() < 0.4:
                kw["nlp_solver_options"] = plan["nlp_options"] if self.shared else dict(plan["nlp_options"])
            if rng.uniform() < 0.3:
                kw["reinitialize_nlp"] = True
            if o["kind"] == "h":
                kw["max_iter"] = int(rng.integers(1, 4))
                if rng.uniform() < 0.6:
                    mo = [{"method": "residual", "sub_method": "merge_split"},
                          {"method": "residual", "sub_method": "equal_area"},
                          {"method": "control_slope"}][int(rng.integers(0, 3))]
                    kw["mpopt_options"] = mo
            elif o["kind"] == "mpopt" and rng.uniform() < 0.6:
                w = gen.make_widths(rng, m.ns, sp.nph).ravel()
                kw["mpopt_options"] = {"nlp_sw_params": w if rng.uniform() < 0.5 else w.tolist()}
            args = kw
            before = snap(args)
            n0 = len(CAP.log)
            with mute:
                sol = opt.solve(**kw)
            calls = [[c.inputs[x] for x in sorted(c.inputs)] for _, c in CAP.log[n0:]]
            nlp = []
            if len(CAP.log) > n0:
                rec = CAP.log[-1][0]
                z = np.random.default_rng(seed).uniform(0.1, 1, rec.nx)
                p = None if rec.np_ == 0 else np.full(rec.np_, 1.0 / m.ns)
                f_, g_ = rec.eval(z, p)
                nlp = [[f_], g_, [float(len(rec.opts))] + [float(hash(str(sorted(rec.opts.items()))) % 1000)]]
            self.sol[k] = sol
            out = [sol, calls, nlp]
        elif k not in self.sol:
            with mute:
                out = opt.initialize_solution()
        elif what == "guess":
            with mute:
                out = opt.initialize_solution()
        elif what == "post":
            sc = bool(rng.uniform() < 0.3)
            args = (self.sol[k],)
            before = snap(args)
            with mute:
                post = opt.process_results(self.sol[k], plot=False, scaling=sc,
                                           residual_dx=bool(rng.uniform() < 0.5),
                                           residual_x=bool(rng.uniform() < 0.3))
                ph = [int(i) for i in rng.permutation(sp.nph)]
                data = flat(post.get_data(phases=list(ph), interpolate=False)) + \
                    flat(post.get_data(phases=list(ph), interpolate=True))
            self.post.setdefault(k, []).append((post, ph, data))
            out = data
        elif what in ("residuals", "states", "second"):
            kw = {}
            grid = [None, "fixed", "mid-points", "spectral"][int(rng.integers(0, 4))]
            if rng.uniform() < 0.5:
                kw["nodes"] = random_nodes(rng, type("S", (), dict(mesh=m, spec=sp)), pmin=1)
            elif grid and what != "states":
                kw["grid_type"] = grid
            if what != "second" and rng.uniform() < 0.3:
                kw["residual_type"] = "relative"
            if what == "states" and sp.nph > 1 and rng.uniform() < 0.3:
                kw["phases"] = [int(i) for i in rng.permutation(sp.nph)]
                if "nodes" in kw and len(kw["nodes"]) != len(kw["phases"]):
                    del kw["nodes"]
            args = (self.sol[k], kw)
            before = snap(args)
            with mute:
                out = list(getattr(opt, dict(residuals="get_dynamics_residuals",
                                             states="get_states_residuals",
                                             second="get_state_second_derivative")[what])(
                                                 self.sol[k], **kw))
        elif what == "widths" and o["kind"] == "h":
            mo = {"method": "residual", "sub_method": str(rng.choice(["merge_split", "equal_area"]))}
            args = (self.sol[k], mo)
            before = snap(args)
            with mute:
                out = opt.get_segment_width_parameters(self.sol[k], mo)
        else:
            with mute:
                out = opt.initialize_solution()
        if args:
            self.check(snap(args) == before, "argument_changed", "the caller's objects are changed by "
                       + what, kind=o["kind"])
        self.untouched(what)
        return [x.copy() for x in flat(out)]


def run(case, mon):
    from .. import sut

    mp, CAP = sut.mp, sut.CAP
    rng = np.random.default_rng(case["seed"])
    tau = [(-1, 1), (0, 1)][int(rng.integers(0, 2))]
    dm = ["symbolic", "numerical"][int(rng.integers(0, 2))]
    specs = [gen.make_spec(rng, max_ph=2, nx=int(rng.integers(1, 4)), nu=int(rng.integers(1, 3)))
             for _ in range(2)]
    plan = dict(specs=specs, opts=[], nlp_options={"ipopt.max_iter": 17, "ipopt.tol": 1e-5})
    grids = [gen.make_grid(rng, max_seg=3, pmax=4, same=False) for _ in range(2)]
    for k in range(int(rng.integers(2, 4))):
        o = dict(ocp=int(rng.integers(0, 2)), orders=list(grids[int(rng.integers(0, 2))]),
                 kind=str(rng.choice(["mpopt", "h", "adaptive"])),
                 scheme=gen.SCHEMES[int(rng.integers(0, 3))], seed=int(rng.integers(1 << 30)),
                 tol=float(rng.choice([1e-2, 1e-6])))
        o["mesh"] = ref.Mesh(o["scheme"], o["orders"], *tau)
        if o["kind"] == "adaptive":
            o["tol"] = 0
        o["ref"] = ref.RefNLP(specs[o["ocp"]], o["mesh"],
                              "adaptive" if o["kind"] == "adaptive" else "mpopt")
        plan["opts"].append(o)
    if len(set(o["ocp"] for o in plan["opts"])) < len(plan["opts"]):
        mon.event("shared_problem")
    whats = ["solve", "solve", "post", "residuals", "states", "second", "widths", "guess"]
    ops = [dict(opt=k, what="solve", seed=int(rng.integers(1 << 30))) for k in range(len(plan["opts"]))]
    for _ in range(int(rng.integers(6, 14))):
        ops.append(dict(opt=int(rng.integers(0, len(plan["opts"]))),
                        what=str(rng.choice(whats)), seed=int(rng.integers(1 << 30))))
    mon.nontrivial([(o["opt"], o["what"]) for o in ops], [o["kind"] for o in plan["opts"]], grids)
    mon.sample(optimizers=[(o["kind"], o["scheme"], o["orders"], "problem %d" % o["ocp"])
                           for o in plan["opts"]], operations=[(o["opt"], o["what"]) for o in ops])
    sut.reset(tau, dm)
    with mon.sut("building optimizers"):
        W = World(plan, mon, mp, CAP)
    W.untouched("construction")
    change_at = int(rng.integers(0, len(ops))) if rng.uniform() < 0.7 else -1
    got = []
    for i, op in enumerate(ops):
        if i == change_at:
            W.user_changes(int(rng.integers(1 << 30)))
        got.append(W.go(op))
        mon.event("operations")
        mon.event("op_" + op["what"])
        if op["what"] in ("residuals", "states", "post", "second", "widths", "guess") and rng.uniform() < 0.5:
            for _ in range(int(rng.integers(0, 3))):
                # another query of the same optimizer in between
                W.go(dict(opt=op["opt"], what=str(rng.choice(QUERIES)),
                          seed=int(rng.integers(1 << 30))))
                mon.event("between")
            again = W.go(op)
            mon.event("repeats")
            same(mon, again, got[-1], "repeat", "the same query gives the same answer", op)
        # post-processors made earlier still show their own solution
        for k in list(W.post):
            if W.post[k] and rng.uniform() < 0.2:
                post, ph, data = W.post[k][int(rng.integers(0, len(W.post[k])))]
                with mon.sut("data of an earlier post-processor"):
                    now = flat(post.get_data(phases=list(ph), interpolate=False)) + \
                        flat(post.get_data(phases=list(ph), interpolate=True))
                mon.event("old_posts")
                same(mon, now, data, "old_post", "an earlier post-processor keeps its data", op)
    for k in range(len(plan["opts"])):
        sut.reset(tau, dm)
        with mon.sut("building optimizers"):
            A = World(plan, mon, mp, CAP, only=k)
        for i, op in enumerate(ops):
            if op["opt"] != k:
                continue
            if op["what"] in QUERIES and rng.uniform() < 0.3:
                mon.event("left_out")  # nothing later depends on a query
                continue
            want = A.go(op)
            mon.event("compared")
            same(mon, got[i], want, "interference",
                 "result differs from the one of the optimizer alone", op,
                 kind=plan["opts"][k]["kind"], user_changed=0 <= change_at <= i)


def same(mon, a, b, key, msg, op, **kw):
    mon.oracle += 1
    ok = len(a) == len(b) and all(x.shape == y.shape and np.allclose(
        x, y, rtol=1e-10, atol=1e-12, equal_nan=True) for x, y in zip(a, b))
    if not ok:
        d = [(i, x.shape, y.shape) for i, (x, y) in enumerate(zip(a, b))
             if x.shape != y.shape or not np.allclose(x, y, rtol=1e-10, atol=1e-12, equal_nan=True)]
        mon.fail(key, msg, operation=op, first=d[:2], got=a[d[0][0]] if d else None,
                 want=b[d[0][0]] if d else None, **kw)
