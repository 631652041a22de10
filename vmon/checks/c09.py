"""Phase linking"""
from ..trans import Setup, case_list

PROPERTY = "C09"
RULE = ("linking rows of 2-6 linked phases; random problems (2-6 phases, 1-4 states, 1-3 controls, 0-3 parameters, "
        "random smooth functions) x meshes (1-4 segments, mixed degrees 1-6, LGR/LGL/CGL, "
        "random reference intervals and widths) x optimizer classes; non-trivial = distinct "
        "(problem structure, mesh, optimizer) whose NLP was captured and compared.")
ASSUMPTIONS = ["decision vector order X, U, t0, tf, a, widths (documented)",
               "reference nodes and differentiation matrices are correct (checked by C01, C02)"]
NEED = {"problems_with_link_x": 100, "rows_link_t": 100, "random_links": 30, "many_phases": 200}


def cases(tier, seed):
    return case_list(tier, seed, salt=9)


def run(case, mon):
    s = Setup(case, mon,
              spec_opts=dict(nph=(2, 3, 4, 2, 3, 4, 5, 6)[case["seed"] // 7 % 8],
                             links=("default", "random")[case["seed"] // 3 % 2]), max_seg=3, pmax=4)
    mon.event("random_links", s.spec.links != [(i, i + 1) for i in range(s.spec.nph - 1)])
    s.compare_rows(("link_x", "link_u", "link_t"))
