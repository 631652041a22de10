"""Optional control constraints"""
from ..trans import Setup, case_list

PROPERTY = "C13"
RULE = ("slope, mid-point and slope-continuity rows; random problems (1-3 phases, 1-4 states, 1-3 controls, 0-3 parameters, "
        "random smooth functions) x meshes (1-4 segments, mixed degrees 1-6, LGR/LGL/CGL, "
        "random reference intervals and widths) x optimizer classes; non-trivial = distinct "
        "(problem structure, mesh, optimizer) whose NLP was captured and compared.")
ASSUMPTIONS = ["decision vector order X, U, t0, tf, a, widths (documented)",
               "reference nodes and differentiation matrices are correct (checked by C01, C02)"]
NEED = {"problems_with_slope": 50, "problems_with_midu": 50, "problems_with_continuity": 30, "multi_phase": 20}


def cases(tier, seed):
    return case_list(tier, seed, salt=13)


def run(case, mon):
    s = Setup(case, mon)
    s.compare_rows(("slope", "continuity") + (() if s.kind == "adaptive" else ("midu",)))
