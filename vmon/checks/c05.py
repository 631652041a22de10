"""Collocated dynamics"""
from ..trans import Setup, case_list

PROPERTY = "C05"
RULE = ("dynamics rows; random problems (1-3 phases, 1-4 states, 1-3 controls, 0-3 parameters, "
        "random smooth functions) x meshes (1-4 segments, mixed degrees 1-6, LGR/LGL/CGL, "
        "random reference intervals and widths) x optimizer classes; non-trivial = distinct "
        "(problem structure, mesh, optimizer) whose NLP was captured and compared.")
ASSUMPTIONS = ["decision vector order X, U, t0, tf, a, widths (documented)",
               "reference nodes and differentiation matrices are correct (checked by C01, C02)"]
NEED = {"nlps_captured": 50, "rows_dynamics": 1000, "kind_adaptive": 5, "multi_phase": 20}


def cases(tier, seed):
    return case_list(tier, seed, salt=5)


def run(case, mon):
    s = Setup(case, mon)
    s.compare_rows(("dynamics",))
