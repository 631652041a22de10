"""Initial guess"""
import numpy as np

from ..trans import Setup, case_list

PROPERTY = "C12"
RULE = ("starting point received by the solver when none is given, for random problems (1-3 "
        "phases, several states/controls/parameters, random scaling, non-zero start times) x "
        "meshes x optimizer classes; non-trivial = distinct (problem, mesh, optimizer).")
ASSUMPTIONS = ["decision vector order X, U, t0, tf, a, widths (documented)"]
NEED = {"guesses_compared": 100, "multi_phase": 20, "kind_adaptive": 5, "several_controls": 50, "equal_times": 50}


def cases(tier, seed):
    return case_list(tier, seed, salt=12)


def run(case, mon):
    rng = np.random.default_rng([case["seed"], 1])
    same = rng.uniform() < 0.1  # guessed times of a phase coincide
    p = int(rng.integers(0, 100))

    def on_ocp(ocp):
        if same:
            ocp.tf0[p % ocp.n_phases] = ocp.t00[p % ocp.n_phases]

    s = Setup(case, mon, solve=False, on_ocp=on_ocp)
    if same:
        s.spec.tf0 = s.spec.tf0.copy()
        s.spec.tf0[p % s.spec.nph] = s.spec.t00[p % s.spec.nph]
        mon.event("equal_times")
    s.create()
    mon.event("guesses_compared")
    mon.event("several_controls", s.spec.nu > 1)
    want = s.ref.guess()
    mon.close(s.call.inputs.get("x0"), want, "guess", "initial guess", rtol=1e-9, atol=1e-9,
              kind=s.kind, nu=s.spec.nu, nx=s.spec.nx, nph=s.spec.nph)
    if s.kind != "adaptive":
        n = s.mesh.ns
        mon.close(s.call.inputs.get("p"), np.full(n * s.spec.nph, 1.0 / n), "widths",
                  "default widths are equal", atol=1e-12)
    with mon.sut("initialize_solution"):
        g = s.opt.initialize_solution()
    mon.close(g, want, "guess", "initialize_solution()", rtol=1e-9, atol=1e-9)
