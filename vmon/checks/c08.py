"""Variable bounds"""
from ..trans import Setup, case_list

PROPERTY = "C08"
RULE = ("lower and upper bounds received by the solver for every variable, for random problems "
        "(1-3 phases, finite and infinite bounds, random scaling) x meshes x optimizer classes; "
        "non-trivial = distinct (problem, mesh, optimizer).")
ASSUMPTIONS = ["decision vector order X, U, t0, tf, a, widths (documented)"]
NEED = {"bounds_compared": 5000, "multi_phase": 20, "kind_adaptive": 5}


def cases(tier, seed):
    return case_list(tier, seed, salt=8)


def run(case, mon):
    s = Setup(case, mon)
    lo, hi = s.ref.bounds()
    mon.event("bounds_compared", 2 * len(lo))
    names = var_names(s)
    for key, want in (("lbx", lo), ("ubx", hi)):
        got = s.call.inputs.get(key)
        if not mon.check(got is not None, "no_" + key, "no variable bounds given to the solver"):
            continue
        mon.close(got, want, key, "variable bounds", rtol=1e-12, atol=1e-12, kind=s.kind,
                  names=names[:40])


def var_names(s):
    out, sp, N = [], s.spec, s.mesh.N
    for p in range(sp.nph):
        out += ["x%d[%d]@%d" % (i, k, p) for i in range(sp.nx) for k in range(N)]
        out += ["u%d[%d]@%d" % (i, k, p) for i in range(sp.nu) for k in range(N)]
        out += ["t0@%d" % p, "tf@%d" % p] + ["a%d@%d" % (i, p) for i in range(sp.na)]
    return out
