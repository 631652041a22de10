"""Validation of problem definitions"""
import casadi as ca
import numpy as np

from .. import gen
from ..trans import case_list
from .c24 import FIELDS, snap

PROPERTY = "C28"
RULE = ("random well-formed problems (default ones included), each validated as it is and after "
        "every one of a random set of single corruptions (shape of each array, number of "
        "equations, missing cost, empty constraint list, missing function, crossed bounds) in a "
        "random phase and component; non-trivial = distinct (problem size, corruption, place).")
ASSUMPTIONS = ["a malformed problem is rejected by an exception; AssertionError except where a "
               "missing phase row is looked up first"]
NEED = {"accepted": 300, "rejected": 4000, "default_problems": 30, "kind_bounds": 300,
        "kind_shape": 300, "kind_function": 300, "kind_list": 100, "last_component": 200,
        "kind_scale": 100, "kind_links": 50, "equal_bounds": 100}


def cases(tier, seed):
    return case_list(tier, seed, salt=28, quick=1500, thorough=6000)


ARRAYS = [("x00", "nx"), ("xf0", "nx"), ("u00", "nu"), ("uf0", "nu"), ("a0", "na"), ("lbx", "nx"),
          ("ubx", "nx"), ("lbu", "nu"), ("ubu", "nu"), ("lba", "na"), ("uba", "na"), ("t00", 1),
          ("tf0", 1), ("lbt0", 1), ("ubt0", 1), ("lbtf", 1), ("ubtf", 1)]
PAIRS = [("lbx", "ubx"), ("lbu", "ubu"), ("lba", "uba"), ("lbt0", "ubt0"), ("lbtf", "ubtf"),
         ("lbe", "ube")]
FUNCS = ["dynamics", "running_costs", "terminal_costs", "path_constraints", "terminal_constraints"]


def corruptions(s, rng):
    """(kind, name, place, function changing an OCP)"""
    nph = s.nph
    out = []

    def add(kind, name, place, f):
        out.append((kind, name, place, f))

    for lo, hi in PAIRS:
        n = {"lbx": s.nx, "lbu": s.nu, "lba": s.na, "lbe": s.nx}.get(lo, 1)
        for p in range(nph - (lo == "lbe")):
            for i in range(n):
                def f(o, lo=lo, hi=hi, p=p, i=i):
                    a, b = getattr(o, lo), getattr(o, hi)
                    v = float(rng.uniform(-3, 3))
                    d = float(10.0 ** rng.uniform(-6, 2))
                    c = rng.uniform()
                    if c < 0.15:
                        a[p][i] = np.inf
                        b[p][i] = v
                    elif c < 0.3:
                        b[p][i] = -np.inf
                        a[p][i] = v
                    else:
                        a[p][i], b[p][i] = v + d, v
                add("bounds", lo, (p, i, i == n - 1 and p == nph - 1 - (lo == "lbe")), f)
    for name, n in ARRAYS:
        for how in ("column+", "column-", "row+", "row-", "flat"):
            def f(o, name=name, how=how):
                v = getattr(o, name)
                if how == "column+":
                    v = np.hstack([v, v[:, :1] if v.shape[1] else np.zeros((v.shape[0], 1))])
                elif how == "column-":
                    v = v[:, :-1]
                elif how == "row+":
                    v = np.vstack([v, v[-1:]])
                elif how == "row-":
                    v = v[:-1]
                else:
                    v = v.ravel()
                setattr(o, name, v)
            k = {"nx": s.nx, "nu": s.nu, "na": s.na}.get(n, n)
            if how == "column-" and k == 0:
                continue
            if k == 0 and how == "flat":
                continue
            add("shape", name, how, f)
    for name, n in (("scale_x", s.nx), ("scale_u", s.nu), ("scale_a", s.na)):
        add("scale", name, "+", lambda o, name=name: setattr(o, name, np.append(getattr(o, name), 1.0)))
        if n:
            add("scale", name, "-", lambda o, name=name: setattr(o, name, getattr(o, name)[:-1]))
    for name in ("lbe", "ube"):
        if nph > 1:
            add("links", name, "row+", lambda o, name=name: setattr(
                o, name, np.vstack([getattr(o, name)] * 2)[:nph]))
            add("links", name, "row-", lambda o, name=name: setattr(o, name, getattr(o, name)[:-1]))
            add("links", name, "column+", lambda o, name=name: setattr(
                o, name, np.hstack([getattr(o, name), getattr(o, name)[:, :1]])))
            if s.nx > 1:
                add("links", name, "column-", lambda o, name=name: setattr(
                    o, name, getattr(o, name)[:, :-1]))
    for name in FUNCS:
        add("list", name, "-", lambda o, name=name: setattr(o, name, getattr(o, name)[:-1]))
        add("list", name, "+", lambda o, name=name: setattr(
            o, name, list(getattr(o, name)) + [getattr(o, name)[-1]]))
        for p in range(nph):
            def put(o, name, p, g):
                fs = list(getattr(o, name))
                old = fs[p]
                fs[p] = (lambda *a: g(old(*a)))
                setattr(o, name, fs)
            if name == "dynamics":
                add("function", name, ("more", p), lambda o, p=p, put=put: put(
                    o, "dynamics", p, lambda r: list(r) + [r[0]]))
                add("function", name, ("fewer", p), lambda o, p=p, put=put: put(
                    o, "dynamics", p, lambda r: list(r)[:-1]))
            elif "cost" in name:
                add("function", name, ("none", p), lambda o, p=p, put=put, name=name: put(
                    o, name, p, lambda r: None))
            else:
                add("function", name, ("empty", p), lambda o, p=p, put=put, name=name: put(
                    o, name, p, lambda r: []))
    return out


def run(case, mon):
    from .. import sut

    mp = sut.mp
    rng = np.random.default_rng(case["seed"])
    s = gen.make_spec(rng, max_ph=4, max_nx=5, max_nu=5, defaults=True)
    plain = rng.uniform() < 0.2
    touch = rng.uniform() < 0.4
    ties = rng.uniform() < 0.5

    def build():
        if plain:
            o = mp.OCP(n_states=s.nx, n_controls=s.nu, n_phases=s.nph, n_params=s.na)
            return o
        o = gen.build_ocp(mp, ca, s)
        if ties:  # fixed values are fine
            r2 = np.random.default_rng([case["seed"], 28])
            for lo, hi in PAIRS:
                a, b = getattr(o, lo), getattr(o, hi)
                for p in range(len(a)):
                    for i in range(len(a[p])):
                        if r2.uniform() < 0.4:
                            a[p][i] = b[p][i] = np.round(r2.uniform(-3, 3), 2)
        return o

    with mon.sut("building a problem"):
        o = build()
    before = {f: snap(getattr(o, f)) for f in FIELDS if hasattr(o, f)}
    with mon.sut("validate of a well-formed problem", key="rejected_valid"):
        if rng.uniform() < 0.3 and not plain:
            mp.mpopt(o, 1, 2).validate()
        else:
            o.validate()
    mon.event("accepted")
    mon.event("default_problems", plain)
    mon.event("equal_bounds", ties and not plain)
    after = {f: snap(getattr(o, f)) for f in FIELDS if hasattr(o, f)}
    mon.check(before == after, "changed", "validation does not change the problem",
              fields=[f for f in before if before[f] != after[f]])
    C = corruptions(s, rng)
    for j in rng.permutation(len(C))[:25]:
        kind, name, place, f = C[j]
        o = build()
        f(o)
        mon.event("kind_" + kind)
        if kind == "bounds" and place[2]:
            mon.event("last_component")
        try:
            o.validate()
            ok = False
        except AssertionError:
            ok = True
        except (IndexError, ValueError, TypeError):
            ok = kind == "shape" or kind == "links" or kind == "list"
            mon.event("other_exception")
        mon.event("rejected", ok)
        mon.nontrivial(s.nx, s.nu, s.na, s.nph, kind, name, place)
        mon.check(ok, "accepted_" + kind, "malformed problem is accepted", corruption=(kind, name, place),
                  nx=s.nx, nu=s.nu, na=s.na, phases=s.nph)
