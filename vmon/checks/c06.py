"""Objective = terminal costs + quadrature of the running costs"""
from .. import gen
from ..trans import Setup, case_list

PROPERTY = "C06"
RULE = ("objective of the captured NLP at random decision and width vectors, for random "
        "problems (1-3 phases, with/without running and terminal costs) x meshes (1-5 segments, "
        "mixed degrees 1-6) x optimizer classes; non-trivial = distinct (problem, mesh) with a "
        "running cost evaluated on unequal widths.")
ASSUMPTIONS = ["decision vector order X, U, t0, tf, a, widths (documented)",
               "reference quadrature weights (Gauss-Legendre integration of the Lagrange basis)",
               "symbolic weights carry the error of the idas integrator (< 2e-5 relative)"]
NEED = {"objectives_compared": 300, "multi_phase": 20, "multi_segment": 50, "kind_adaptive": 5}


def cases(tier, seed):
    return case_list(tier, seed, salt=6)


def run(case, mon):
    s = Setup(case, mon, max_seg=5)
    tol = 2e-5 if s.dmat == "symbolic" else 1e-9
    for _ in range(4):
        z = s.ref.random_z(s.rng)
        w = gen.make_widths(s.rng, s.mesh.ns, s.spec.nph)
        f, _ = s.rec.eval(z, s.p(w))
        J, mag = s.ref.objective(z, w)
        mon.event("objectives_compared")
        mon.close(f, J, "objective", "objective value", rtol=0, atol=tol * (mag + 1e-3),
                  orders=s.orders, method=s.dmat, kind=s.kind)
