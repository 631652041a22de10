"""tools/mkseeds.py [id...]: write /verif/seeded/<id>/ from the list below (not read by any check)"""
import difflib, json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/mpopt/mpopt.py"
src = open(SRC).read()
S = []


def seed(id, prop, edits, needs, breaks, demo):
    S.append((id, prop, edits, needs, breaks, demo))


SEGLOOP = """                h_seg = (
                    (tf - t0) / (self.tau1 - self.tau0) * self.seg_widths[seg, phase]
                )
"""
seed("C05_widths_of_second_phase", "C05",
     [(SEGLOOP, SEGLOOP.replace("[seg, phase]", "[seg, min(phase, 1)]"))],
     "three or more phases, two or more segments, widths that differ between the phases",
     "the dynamics of the third phase are scaled with the widths of the second phase",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=3)
for k in range(3):
    o.dynamics[k] = lambda x, u, t: [2.0]
w = [[0.5, 0.5], [0.25, 0.75], [0.6, 0.4]]
opt = mp.mpopt(o, 2, [3, 2], "CGL")
n = NLP(opt)
z = []
for k in range(3):
    t = times([3, 2], w[k], k, k + 1.0)
    z += [2 * t, 0 * t, [k], [k + 1.0]]
check(excess(n, np.concatenate(z), np.concatenate(w)) < 1e-9, "exact solution is feasible")
""")
seed("C05_state_scale_of_time_varying", "C05",
     [("            t = t_seg0 + h_seg * (self._taus[self.poly_orders[seg]][point] - self.tau0)\n",
       "            t = t_seg0 + h_seg * (\n                self._taus[self.poly_orders[min(seg, 2)]][min(point, len(self._taus[self.poly_orders[min(seg, 2)]]) - 1)] - self.tau0)\n")],
     "four or more segments, the fourth with another degree than the third, time dependent dynamics",
     "dynamics, path constraints and costs are evaluated at wrong times",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
o.dynamics[0] = lambda x, u, t: [2 * t]
w = [0.1, 0.2, 0.3, 0.4]
opt = mp.mpopt(o, 4, [2, 2, 2, 4], "CGL")
n = NLP(opt)
t = times([2, 2, 2, 4], w, 0, 3.0)
check(excess(n, np.concatenate([t ** 2, 0 * t, [0], [3.0]]), w) < 1e-9, "exact solution is feasible")
""")
TERM = """        a = ca.mtimes(self.__invScA, self.A[:, phase])
        t0 = self.t0[phase] / self._ocp.scale_t
        tf = self.tf[phase] / self._ocp.scale_t

        # Check if OCP has terminal"""
seed("C07_terminal_parameters_of_first_phase", "C07",
     [(TERM, TERM.replace("self.A[:, phase]", "self.A[:, 0]"))],
     "parameters in the terminal constraints of a later phase",
     "terminal constraints of every phase use the parameters of the first phase",
     """
o = mp.OCP(n_states=1, n_controls=1, n_params=1, n_phases=2)
o.terminal_constraints[1] = lambda xf, tf, x0, t0, a: [xf[0] ** 2 - 3 * a[0]]
for k in range(2):
    o.dynamics[k] = lambda x, u, t, a: [u[0]]
opt = mp.mpopt(o, 1, [3], "CGL")
n = NLP(opt)
zs = rand(n)
m = n.nz // 2
check(has_row(rows(n, zs, [1, 1]), np.array([z[m + 3] ** 2 - 3 * z[-1] for z in zs])), "terminal constraint")
""")
seed("C07_path_constraints_of_first_phase_shape", "C07",
     [("            C = ca.vertcat(*c)[:]\n", "            C = ca.vertcat(*c[: 1 + sum(self.poly_orders[:3])])[:]\n")],
     "more than three segments",
     "path constraints are only imposed in the first three segments",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
o.dynamics[0] = lambda x, u, t: [u[0]]
o.path_constraints[0] = lambda x, u, t: [x[0] * u[0] - 2]
n = NLP(mp.mpopt(o, 4, [2, 1, 2, 3], "CGL"))
zs = rand(n)
r = rows(n, zs, [0.25] * 4)
for k in range(9):
    check(has_row(r, np.array([z[k] * z[9 + k] - 2 for z in zs])), "path constraint at node %d" % k)
""")
seed("C06_start_time_scaled", "C06",
     [(TERM, TERM.replace("t0 = self.t0[phase] / self._ocp.scale_t", "t0 = self.t0[phase]"))],
     "a time scale other than one and a terminal cost (or constraint) that depends on the start time",
     "the terminal cost sees the scaled start time",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=2)
o.scale_t = 0.5
for k in range(2):
    o.dynamics[k] = lambda x, u, t: [u[0]]
o.terminal_costs[1] = lambda xf, tf, x0, t0: xf[0] + t0 * tf
n = NLP(mp.mpopt(o, 1, [2], "CGL"))
z = rand(n)[0]
close(n.f(z, [1, 1]), z[8 + 2] + z[8 + 6] * z[8 + 7] * 4, "cost")
""")
seed("C06_cost_overwritten", "C06",
     [("            self.J += J\n", "            self.J = J if phase > 2 else self.J + J\n")],
     "four or more phases",
     "the costs of the phases before the fourth are forgotten",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=4)
for k in range(4):
    o.dynamics[k] = lambda x, u, t: [u[0]]
    o.terminal_costs[k] = lambda xf, tf, x0, t0: xf[0]
n = NLP(mp.mpopt(o, 1, [2], "CGL"))
z = rand(n)[0]
close(n.f(z, [1] * 4), sum(z[8 * k + 2] for k in range(4)), "cost")
""")
seed("C09_jump_bounds_reversed", "C09",
     [("            [self._ocp.lbe[phase] * self._ocp.scale_x for phase in range(n)]",
       "            [self._ocp.lbe[n - 1 - phase] * self._ocp.scale_x for phase in range(n)]")],
     "three or more phases with different bounds for the state jumps of the links",
     "lower bounds of the state jumps belong to the wrong link",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=3)
o.lbe[:] = [[-1.0], [-2.0]]
o.ube[:] = [[3.0], [4.0]]
n = NLP(mp.mpopt(o, 1, [2], "CGL"))
zs = rand(n)
r, lb, ub = rows(n, zs, [1] * 3), np.ravel(n.b["lbg"]), np.ravel(n.b["ubg"])
for k, (lo, hi) in enumerate([(-1, 3), (-2, 4)]):
    check(has_row(r, np.array([z[8 * (k + 1)] - z[8 * k + 2] for z in zs]), lb, ub, lo, hi), "jump %d" % k)
""")
seed("C09_time_of_previous_phase", "C09",
     [("                self.t0[phase_j] - self.tf[phase_i]\n", "                self.t0[phase_j] - self.tf[phase_j - 1]\n")],
     "links that skip a phase (branching)",
     "the start time of a phase is linked to the phase before it instead of to the phase it is linked with",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=3)
o.phase_links = [(0, 1), (0, 2)]
n = NLP(mp.mpopt(o, 1, [2], "CGL"))
zs = rand(n)
r = rows(n, zs, [1] * 3)
check(has_row(r, np.array([z[16 + 6] - z[7] for z in zs])), "time link of phases 0 and 2")
""")
seed("C09_controls_chained", "C09",
     [("                (self.U[phase_j][0, :] - self.U[phase_i][-1, :]).T\n",
       "                (self.U[phase_j][0, :] - self.U[max(phase_i, phase_j - 1)][-1, :]).T\n")],
     "links that skip a phase (branching)",
     "controls are linked to the phase before instead of to the linked phase",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=3)
o.phase_links = [(0, 1), (0, 2)]
n = NLP(mp.mpopt(o, 1, [2], "CGL"))
zs = rand(n)
r = rows(n, zs, [1] * 3)
check(has_row(r, np.array([z[16 + 3] - z[5] for z in zs])), "control link of phases 0 and 2")
""")
seed("C13_midpoints_of_first_phase", "C13",
     [("        if not self._ocp.midu[phase]:\n", "        if not self._ocp.midu[0]:\n")],
     "phases that differ in the mid point option",
     "the option of the first phase decides about the mid point constraints of all phases",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=2)
o.midu[:] = [0, 1]
o.lbu[1], o.ubu[1] = -1, 1
n = NLP(mp.mpopt(o, 1, [1], "CGL"))
zs = rand(n)
r, lb, ub = rows(n, zs, [1] * 2), np.ravel(n.b["lbg"]), np.ravel(n.b["ubg"])
check(has_row(r, np.array([(z[6 + 2] + z[6 + 3]) / 2 for z in zs]), lb, ub, -1, 1), "mid point of phase 1")
""")
seed("C13_upper_slope_of_first_phase", "C13",
     [("            DUmax = [self._ocp.ubdu[phase]] * (nDu)\n", "            DUmax = [self._ocp.ubdu[: phase + 1].min()] * (nDu)\n")],
     "slope limits that are larger in a later phase than in an earlier one",
     "the slopes of a later phase obey the limits of an earlier one",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=2)
o.diff_u[:] = 1
o.lbdu[:] = [-1, -2]
o.ubdu[:] = [3, 4]
n = NLP(mp.mpopt(o, 1, [1], "CGL"))
zs = rand(n)
r, lb, ub = rows(n, zs, [1] * 2), np.ravel(n.b["lbg"]), np.ravel(n.b["ubg"])
s = np.array([(z[6 + 3] - z[6 + 2]) / (z[6 + 5] - z[6 + 4]) for z in zs])
check(has_row(r, s, lb, ub, -2, 4), "slope of phase 1")
""")
VARS = """            xmin_vec[0] = xmax_vec[0] = self._ocp.x00[0] * self._ocp.scale_x

        Zmin"""
seed("C08_unlinked_start_fixed", "C08",
     [("""        if phase == 0:
            xmin_vec[0] = xmax_vec[0] = self._ocp.x00[0] * self._ocp.scale_x
""", """        if phase not in [link[1] for link in self._ocp.phase_links]:
            xmin_vec[0] = xmax_vec[0] = self._ocp.x00[phase] * self._ocp.scale_x
""")],
     "a later phase that is not the target of a phase link",
     "the start of an unlinked phase is fixed to its guess",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=3)
o.phase_links = [(0, 1)]
o.lbe, o.ube = o.lbe[:1], o.ube[:1]
o.lbx[:], o.ubx[:] = -3, 3
o.x00[:] = 1
n = NLP(mp.mpopt(o, 1, [2], "CGL"))
close(np.ravel(n.b["lbx"])[[0, 8, 16]], [1, -3, -3], "lower bounds")
close(np.ravel(n.b["ubx"])[[0, 8, 16]], [1, 3, 3], "upper bounds")
""")
seed("C08_adaptive_parameter_bound", "C08",
     [("                self._ocp.uba[phase] * self._ocp.scale_a,\n                [self.ubh[phase]] * self.n_segments,",
       "                self._ocp.uba[0] * self._ocp.scale_a,\n                [self.ubh[phase]] * self.n_segments,")],
     "direct adaptive optimizer, parameters, phases with different bounds",
     "upper bounds of the parameters are those of the first phase",
     """
o = mp.OCP(n_states=1, n_controls=1, n_params=1, n_phases=2)
for k in range(2):
    o.dynamics[k] = lambda x, u, t, a: [u[0]]
o.lba[:] = [[-1.0], [-2.0]]
o.uba[:] = [[1.0], [2.0]]
prob, b = mp.mpopt_adaptive(o, 1, [2], "CGL").create_nlp()
m = prob["x"].numel() // 2
close(np.ravel(b["ubx"])[[8, m + 8]], [1, 2], "upper bounds")
""")
seed("C08_final_time_bound_last", "C08",
     [("                self._ocp.lbtf[phase] * self._ocp.scale_t,\n                self._ocp.lba[phase] * self._ocp.scale_a,\n            ]",
       "                self._ocp.lbtf[phase] * (self._ocp.scale_t if phase < 2 else 1),\n                self._ocp.lba[phase] * self._ocp.scale_a,\n            ]")],
     "three phases, a time scale other than one and a lower bound of the final time of the third phase",
     "the lower bound of the third phase's final time is not scaled",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=3)
o.scale_t = 0.1
o.lbtf[:] = [[5.0], [6.0], [7.0]]
n = NLP(mp.mpopt(o, 1, [2], "CGL"))
close(np.ravel(n.b["lbx"])[[7, 15, 23]], [0.5, 0.6, 0.7], "lower bounds")
""")
seed("C12_adaptive_final_control", "C12",
     [("        z0 = [None] * 6\n", "        z0 = [None] * 6\n"),
      ("        uf0 = self._ocp.uf0[phase] * self._ocp.scale_u\n", "        uf0 = self._ocp.uf0[0] * self._ocp.scale_u\n", 2)],
     "direct adaptive optimizer, phases with different final control guesses",
     "the guess of the controls ends at the value of the first phase",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=2)
o.uf0[:] = [[1.0], [2.0]]
opt = mp.mpopt_adaptive(o, 1, [1], "CGL")
opt.create_nlp()
close(opt.initialize_solution()[[3, 7 + 3]], [1, 2], "guess")
""")
seed("C12_start_time_chained", "C12",
     [("        t00 = self._ocp.t00[phase] * self._ocp.scale_t\n", "        t00 = (self._ocp.tf0[phase - 1] if phase else self._ocp.t00[phase]) * self._ocp.scale_t\n", 1)],
     "phases whose guessed start differs from the guessed end of the phase before",
     "the guessed start time of a later phase is ignored",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=2)
o.t00[1], o.tf0[1] = 1.5, 3.0
opt = mp.mpopt(o, 1, [2], "CGL")
opt.create_nlp()
close(opt.initialize_solution()[8 + 6:8 + 8], [1.5, 3.0], "guess")
""")
seed("C25_bound_multipliers_dropped", "C25",
     [('            "lam_x": "lam_x0",\n', '')],
     "a warm start from a solution",
     "the multipliers of the variable bounds of a given solution do not reach the solver",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
opt = mp.mpopt(o, 1, [2], "CGL")
opt.create_solver()
opt.nlp_solver = s = Stub(opt)
quiet(opt.solve, {"x": np.ones(8), "lam_x": 2 * np.ones(8), "lam_g": np.ones(3)})
check("lam_x0" in s.calls[0], "multipliers given to the solver")
close(s.calls[0]["lam_x0"], 2 * np.ones(8), "multipliers")
""")
seed("C25_reinitialisation_only_once", "C25",
     [("        if (not self._nlpsolver_initialized) or (reinitialize_nlp):\n            self.create_solver(solver=solver, options=nlp_solver_options)\n\n        # By default, these paramers",
       "        if (not self._nlpsolver_initialized) or (\n            reinitialize_nlp and initial_solution is None\n        ):\n            self.create_solver(solver=solver, options=nlp_solver_options)\n\n        # By default, these paramers")],
     "asking for a reinitialisation while giving a starting point",
     "the solver is not created again with the new options when a starting point is given",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
o.dynamics[0] = lambda x, u, t: [u[0]]
o.running_costs[0] = lambda x, u, t: u[0] ** 2
o.lbtf[0] = o.ubtf[0] = 1
opt = mp.mpopt(o, 1, [3], "CGL")
sol = quiet(opt.solve)
s0 = opt.nlp_solver
quiet(opt.solve, sol, reinitialize_nlp=True, nlp_solver_options={"ipopt.max_iter": 3})
check(opt.nlp_solver is not s0, "solver created again")
""")
seed("C24_problem_shared", "C24",
     [("        self._ocp = copy.deepcopy(problem)\n", "        self._ocp = copy.copy(problem)\n")],
     "changing the problem after an optimizer was made from it",
     "an optimizer sees later changes of the user's problem",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
o.lbu[0], o.ubu[0] = -1, 1
opt = mp.mpopt(o, 1, [1], "CGL")
o.lbu[0] = -7
n = NLP(opt)
close(np.ravel(n.b["lbx"])[2:4], [-1, -1], "bounds")
""")
RES = """import copy
o = mp.OCP(n_states=2, n_controls=1, n_phases=2)
for k in range(2):
    o.dynamics[k] = lambda x, u, t: [x[1], u[0] - 1.5]
opt = mp.mpopt(o, 2, [2, 2], "CGL")
n = NLP(opt)
W = [0.5, 0.5, 0.2, 0.8]
opt._nlp_sw_params = W
z = rand(n, 1)[0]
z[15:17] = [0, 1]
z[17 + 15:17 + 17] = [1, 3]
nodes_at = [[np.array([-0.5, 0.3]), np.array([0.1, 0.9])]] * 2


def lag(x, v):
    s = nodes(2)
    L = lambda f: sum(v[j] * f(np.poly1d(np.poly([s[i] for i in range(3) if i != j])) / np.prod([s[j] - s[i] for i in range(3) if i != j]))(x) for j in range(3))
    return L(lambda p: p), L(lambda p: p.deriv())


def defect(ph, seg, x):
    y = z[17 * ph:17 * ph + 15].reshape(3, 5)[:, 2 * seg:2 * seg + 3]
    (a, da), (b, db), (u, _) = [lag(x, y[k]) for k in range(3)]
    h = [1, 2][ph] / 2 * W[2 * ph + seg]
    F = h * np.array([b, u - 1.5])
    return np.array([da, db]) - F, F
"""
DYNW = """        seg_widths = self._nlp_sw_params[
            self.n_segments * phase : self.n_segments * (phase + 1)
        ]
        index = 0
        n_taus = [len(taus) for taus in taus_grid]
        residual_phase = [None] * self.n_segments
        dyn_phase"""
seed("C16_widths_of_first_phase", "C16",
     [(DYNW, DYNW.replace("self.n_segments * phase : self.n_segments * (phase + 1)", "0 : self.n_segments"))],
     "two or more phases with different widths",
     "residuals of later phases are computed with the widths of the first phase",
     RES + """
t, r = opt.get_dynamics_residuals({"x": z}, nodes=nodes_at)
for ph in range(2):
    for s in range(2):
        for i, x in enumerate(nodes_at[ph][s]):
            close(r[ph][s][i], defect(ph, s, x)[0], "residual")
""")
seed("C16_relative_sign", "C16",
     [("                        seg_max = abs(np.array(res_seg)).max(axis=0)\n", "                        seg_max = np.array(res_seg).max(axis=0)\n", 2)],
     "relative residuals, right hand sides whose largest magnitude is negative",
     "relative residuals are divided by the largest positive instead of by the largest magnitude",
     RES + """
z[10:15] = z[27:32] = 0
t, r = opt.get_dynamics_residuals({"x": z}, nodes=nodes_at, residual_type="relative")
for ph in range(2):
    d = [[defect(ph, s, x) for x in nodes_at[ph][s]] for s in range(2)]
    F = np.max([abs(e[1]) for s in d for e in s], axis=0)
    for s in range(2):
        for i in range(2):
            close(r[ph][s][i], d[s][i][0] / F, "relative residual")
""")
seed("C16_time_of_segment", "C16",
     [("""                    ti[index],
                    a / self._ocp.scale_a,
                )
                f[i] = ca.DM(f[i])
                t[i] = ti[index]

                index""", """                    ti[index],
                    a / self._ocp.scale_a,
                )
                f[i] = ca.DM(f[i])
                t[i] = ti[index if len(self.poly_orders) < 3 else i + sum(n_taus[:seg])]
                f[i] = f[i] if seg < 2 else ca.DM(dynamics(xi[index, :].T / self._ocp.scale_x, ui[index, :].T / self._ocp.scale_u, ti[i], a / self._ocp.scale_a))

                index""")],
     "three or more segments, dynamics that depend on time",
     "the defect in the third segment is computed at the times of the first",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
o.dynamics[0] = lambda x, u, t: [2 * t]
opt = mp.mpopt(o, 3, [2, 2, 2], "CGL")
n = NLP(opt)
opt._nlp_sw_params = w = [0.2, 0.3, 0.5]
t = times([2] * 3, w)
_, r = opt.get_dynamics_residuals({"x": np.concatenate([t ** 2, 0 * t, [0, 1]])}, nodes=[[np.array([0.3])] * 3])
close([r[0][s][0][0] for s in range(3)], [0, 0, 0], "residual of the exact solution")
""")
seed("C17_relative_sign", "C17",
     [("                        seg_max = abs(np.array(res_seg)).max(axis=0)\n", "                        seg_max = np.array(res_seg).max(axis=0)\n", 1)],
     "relative residuals, states whose largest magnitude is negative",
     "relative residuals are divided by the largest positive instead of by the largest magnitude",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
o.dynamics[0] = lambda x, u, t: [3.0]
opt = mp.mpopt(o, 2, [2, 2], "CGL")
n = NLP(opt)
opt._nlp_sw_params = [0.5, 0.5]
x = np.array([-5.0, -4.6, -4.0, -2.0, -1.0])
xi, ui, t, r = opt.get_states_residuals({"x": np.concatenate([x, 0 * x, [0, 1]])}, nodes=[[np.array([-0.5, 1.0])] * 2])
xi1, _, _, a = opt.get_states_residuals({"x": np.concatenate([x, 0 * x, [0, 1]])}, nodes=[[np.array([-0.5, 1.0])] * 2], residual_type="relative")
M = max(abs(np.concatenate([np.ravel(s) for s in xi[0]])))
for s in range(2):
    close(a[0][s], np.ravel(r[0][s]) / M, "relative residual")
""")
seed("C17_start_of_segment", "C17",
     [("            x[sum(self.poly_orders[: (i + 1)]), :] for i in range(len(self.poly_orders))\n",
       "            x[(i + 1) * self.poly_orders[0], :] for i in range(len(self.poly_orders))\n")],
     "segments of different degrees",
     "the integration of the dynamics starts from the wrong state in the third segment",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
o.dynamics[0] = lambda x, u, t: [3.0]
opt = mp.mpopt(o, 3, [2, 3, 3], "CGL")
n = NLP(opt)
opt._nlp_sw_params = w = [0.2, 0.3, 0.5]
t = times([2, 3, 3], w)
_, _, _, r = opt.get_states_residuals({"x": np.concatenate([3 * t, 0 * t, [0, 1]])}, nodes=[[np.array([-0.5, 0.5])] * 3])
for s in range(3):
    close(r[0][s], [0, 0], "residual of the exact solution")
""")
POST = """
def make(orders, nph, w=None, cls=mp.mpopt):
    o = mp.OCP(n_states=1, n_controls=1, n_phases=nph)
    opt = cls(o, len(orders), orders, "CGL")
    n = NLP(opt)
    opt._nlp_sw_params = [1.0 / len(orders)] * (len(orders) * nph) if w is None else w
    z = rand(n)[0]
    N = sum(orders) + 1
    for k in range(nph):
        z[k * (2 * N + 2) + 2 * N] = k
        z[k * (2 * N + 2) + 2 * N + 1] = k + 1.0
    return opt, z, N, lambda k: (z[k * (2 * N + 2):][:N], z[k * (2 * N + 2) + N:][:N])
"""
seed("C15_phases_sorted", "C15",
     [("            for phase in phases[1:]:\n                x_orig", "            for phase in sorted(phases[1:]):\n                x_orig")],
     "interpolated data of three or more phases, not in increasing order",
     "phases are returned in another order than they were asked for",
     POST + """
opt, z, N, d = make([1], 3)
post = quiet(opt.process_results, {"x": z}, plot=False)
x, u, t, a = post.get_interpolated_data([0, 2, 1], [np.array([-1.0, 1.0])])
close(x, np.concatenate([d(0)[0], d(2)[0], d(1)[0]]), "states of the phases")
""")
seed("C14_phases_sorted", "C14",
     [("            for phase in phases[1:]:\n                xp, up, tp, ap", "            for phase in sorted(set(phases[1:])):\n                xp, up, tp, ap")],
     "original data of three or more phases, not in increasing order, or repeated",
     "phases are returned in another order than they were asked for",
     POST + """
opt, z, N, d = make([2], 3)
post = quiet(opt.process_results, {"x": z}, plot=False)
x, u, t, a = post.get_original_data([0, 2, 1])
close(x, np.concatenate([d(0)[0], d(2)[0], d(1)[0]]), "states of the phases")
""")
seed("C14_stored_widths", "C14",
     [("""            "seg_widths": self._nlp_sw_params,
            "residuals": resid_value,
        }

        post = post_process(solution, trajectories, options)

        if plot:
            for phases in self._ocp.phases_to_plot:
                residuals = residual_x or residual_dx
                post.plot_phases(phases, residuals=residuals)

        post_time = time.monotonic()

        if not self._MUTE_:
            print(f"\\n Post processed in {round((post_time - start_time)*1e3, 3)} ms")
            print(
                f" \\t Solution retrieval            : {round((traj_time - start_time)*1e3, 3)} ms"
            )
            if residual_x:
                print(
                    f" \\t Residual in states             : {round((rx_time - traj_time)*1e3, 3)} ms"
                )
                if residual_dx:
                    print(
                        f" \\t Residual in dynamics          : {round((rdx_time - rx_time)*1e3, 3)} ms"
                    )
            elif residual_dx:
                print(
                    f" \\t Residual in dynamics           : {round((rdx_time - traj_time)*1e3, 3)} ms"
                )
            print(
                f" \\t Process solution and plot      : {round((post_time - r_time)*1e3, 3)} ms"
            )

        return post

    def validate""", None)],
     "more than four widths in all phases that are not equal",
     "the times of the post processed data belong to equal widths",
     POST + """
w = [0.2, 0.3, 0.5, 0.5, 0.2, 0.3]
opt, z, N, d = make([2, 1, 1], 2, w)
post = quiet(opt.process_results, {"x": z}, plot=False)
close(post.get_original_data([1])[2], times([2, 1, 1], w[3:], 1.0, 2.0), "times")
""")
H = """
def hopt(nph=2, ns=3, **k):
    o = mp.OCP(n_states=1, n_controls=1, n_phases=nph)
    for p in range(nph):
        o.dynamics[p] = lambda x, u, t: [x[0] ** 2 * 10 + u[0] * 0]
    opt = mp.mpopt_h_adaptive(o, ns, [2] * ns, "CGL")
    for a in k:
        setattr(opt, a, k[a])
    return opt
"""
seed("C22_tolerance_of_any_phase", "C22",
     [("                    if max_error < min(self.tol_residual):\n                        self.iter_info", "                    if max_error < max(self.tol_residual):\n                        self.iter_info")],
     "phases with different tolerances",
     "the iterations stop when the residual is within the loosest tolerance",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=2)
opt = mp.mpopt_h_adaptive(o, 2, [2] * 2, "CGL")
opt.tol_residual = [0.01, 10.0]
opt.create_solver()
n = NLP(opt)
z = np.zeros(n.nz)
z[10:12], z[22:24] = [0, 1], [1, 2]
z[0:5] = 0, 0.0, 0.0, 0.7, -0.5
opt.nlp_solver = s = Stub(opt, [z, z, z])
quiet(opt.solve, max_iter=3)
check(len(s.calls) > 1, "more than one solve, residual above the tolerance")
""")
seed("C22_warm_start_first", "C22",
     [("                initial_solution = solution\n                sw_old", "                initial_solution = solution if iter < 2 else initial_solution\n                sw_old")],
     "four or more iterations",
     "later iterations start from (and refine) an old solution",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
opt = mp.mpopt_h_adaptive(o, 3, [2] * 3, "CGL")
opt.create_solver()
n = NLP(opt)
rng = np.random.RandomState(3)
ans = []
for k in range(4):
    z = rng.uniform(-1, 1, n.nz)
    z[-2:] = 0, 1
    ans.append(z)
opt._TOL_SEG_WIDTH_CHANGE = 0.0
opt.nlp_solver = s = Stub(opt, ans)
quiet(opt.solve, max_iter=4)
check(len(s.calls) == 4, "four solves")
for k in range(1, 4):
    close(s.calls[k]["x0"], ans[k - 1], "start of solve %d" % k)
""")
OLDW = """            segment_widths_old = self._nlp_sw_params[
                self.n_segments * phase : self.n_segments * (phase + 1)
            ]
"""
HW = """
o = mp.OCP(n_states=1, n_controls=1, n_phases=2)
opt = mp.mpopt_h_adaptive(o, 3, [2] * 3, "CGL")
n = NLP(opt)
w = [0.2, 0.3, 0.5, 0.5, 0.1, 0.4]
opt._nlp_sw_params = list(w)
t = times([2] * 3, w[:3])
z = np.zeros(n.nz)
z[14:16], z[30:32] = [0, 1], [1, 2]
"""
seed("C20_old_widths_of_first_phase", "C20",
     [(OLDW, OLDW.replace("self.n_segments * phase : self.n_segments * (phase + 1)", ": self.n_segments"))],
     "two or more phases with different widths, refinement by residual, a phase within tolerance",
     "widths of a later phase are replaced by those of the first one",
     HW + """
z[0:7] = 0, 3, 1, 0, 2, 0, 1
w2, e = quiet(opt.compute_seg_width_based_on_residuals, {"x": z}, "merge_split")
close(w2[3:], w[3:], "widths of the phase within tolerance")
""")
seed("C20_tolerance_of_first_phase", "C20",
     [("            if max_residual < self.tol_residual[phase]:\n", "            if max_residual < self.tol_residual[0]:\n")],
     "phases with different tolerances",
     "whether a phase is refined is decided with the tolerance of the first phase",
     HW + """
opt.tol_residual = [1e3, 1e-3]
z[16:23] = 0, 3, 1, 0, 2, 0, 1
w2, e = quiet(opt.compute_seg_width_based_on_residuals, {"x": z}, "equal_area")
check(abs(np.array(w2[3:]) - w[3:]).max() > 1e-3, "widths of the phase above tolerance are refined")
""")
seed("C20_limits_not_restored", "C20",
     [("                    if seg > self.ubh[phase]:\n                        segment_widths[phase][i] = self.ubh[phase]\n",
       "                    elif seg > self.ubh[phase] and i < 2:\n                        segment_widths[phase][i] = self.ubh[phase]\n")],
     "control slope refinement with an upper limit, a long third segment",
     "the upper limit of the fractions is not kept in the later segments",
     HW + """
opt.ubh = [0.4, 0.4]
opt.lbh = [0.01, 0.01]
opt.tol_residual = [1e-9, 1e-9]
z[0:7] = 0, 3, 1, 0, 2, 0, 1
z[7:14] = 0, 2, 5, 5, 5, 5, 5
w2, e = quiet(opt.compute_seg_width_based_on_input_slope, {"x": z})
f = np.array(w2[:3])
check(f.max() / f.min() <= 0.4 / 0.01 + 1e-9 and f.max() < 0.75, "fractions %s within limits" % f)
""")
seed("C21_merge_widths_of_first_group", "C21",
     [("                    new_sw[seg_id] = h_new[i] / n_free_per_false[false_id]\n", "                    new_sw[seg_id] = h_new[i] / n_free_per_false[0]\n")],
     "merging with two groups above tolerance that get different numbers of segments",
     "the total of the widths is not kept",
     """
w = mp.mpopt_h_adaptive.merge_split_segments_based_on_residuals([1, 0, 0, 1, 0, 0, 0, 0, 1.0], [1 / 9] * 9, ERR_TOL=0.5)
close(sum(w), 1, "total")
""")
seed("C21_slope_total", "C21",
     [("        segment_widths = np.array(segment_widths) / (tf - t0)\n", "        segment_widths = np.array(segment_widths) / tf\n")],
     "a phase that does not start at time zero",
     "fractions of the slope rule are divided by the final time instead of by the duration",
     """
w = mp.mpopt_h_adaptive.compute_segment_widths_at_times(np.array([2.5, 1.5]), 3, 1.0, 3.0)
close(w, [0.25, 0.5, 0.25], "fractions")
""")
seed("C21_slope_steepest", "C21",
     [("        du_max = np.linalg.norm(du_orig, 2, axis=1)\n\n        # Method-3", "        du_max = du_orig.max(axis=1)\n\n        # Method-3")],
     "two or more controls",
     "the steepest times are decided with the largest component instead of the norm of the slopes",
     """
t = mp.mpopt_h_adaptive.compute_time_at_max_values(None, np.arange(5.0), np.array([[0, 0], [3, 3], [4, 0], [0, 1], [0, 0.0]]), threshold=0.5)
close(t, [1, 2, 3], "times, steepest first")
""")
AD = """
def ad(nph=2, **k):
    o = mp.OCP(n_states=1, n_controls=1, n_phases=nph)
    for p in range(nph):
        o.dynamics[p] = lambda x, u, t: [t]
    opt = mp.mpopt_adaptive(o, 2, [1, 1], "CGL")
    for a in k:
        setattr(opt, a, k[a])
    return opt
"""
seed("C23_tolerance_of_first_phase", "C23",
     [("            swmax.append([self.tol_residual[phase]] * n_residuals)\n", "            swmax.append([self.tol_residual[0]] * n_residuals)\n")],
     "phases with different tolerances",
     "the upper bounds of the residuals are those of the first phase",
     AD + """
n = NLP(ad(tol_residual=[0.25, 0.125]))
lb, ub = np.ravel(n.b["lbg"]), np.ravel(n.b["ubg"])
check(sorted(lb[lb < 0]) == sorted(-ub[ub > 0]), "residuals bounded by the tolerance on both sides")
check(sum(ub == 0.125) == 2, "tolerance of the second phase")
""")
seed("C23_sum_of_first_phase", "C23",
     [("        sw.append(ca.sum1(self.seg_widths[:, phase]) - 1.0)\n", "        sw.append(ca.sum1(self.seg_widths[:, min(phase, 1)]) - 1.0)\n")],
     "three or more phases",
     "the widths of the third phase do not have to sum to one",
     AD + """
n = NLP(ad(3))
m = n.nz // 3
zs = rand(n)
r = rows(n, zs)
for k in range(3):
    check(has_row(r, np.array([z[m * k + m - 2] + z[m * k + m - 1] - 1 for z in zs])), "sum of phase %d" % k)
""")
seed("C23_times_of_first_phase", "C23",
     [("                (self.time_grid[phase][i] + self.time_grid[phase][i + 1]) / 2.0\n", "                (self.time_grid[0][i] + self.time_grid[0][i + 1]) / 2.0\n")],
     "two or more phases, dynamics that depend on time",
     "residuals of later phases are taken at the times of the first one",
     AD + """
n = NLP(ad())
m = n.nz // 2
zs = rand(n)
W = lambda z: z[m + m - 2:m + m]
r = rows(n, zs)
want = []
for z in zs:
    t0, tf, (w0, w1) = z[m + 6], z[m + 7], W(z)
    h = (tf - t0) / 2 * w0
    want.append(w0 * ((z[m + 1] - z[m]) / 2 - h * (t0 + h)))
check(has_row(r, np.array(want)), "residual in the first segment of the second phase")
""")
seed("C28_jump_bounds_of_first_link", "C28",
     [("                    assert self.lbe[phase][i] <= self.ube[phase][i]\n", "                    assert self.lbe[0][i] <= self.ube[0][i]\n")],
     "three or more phases",
     "contradicting jump bounds of later links are accepted",
     """
o = mp.OCP(n_states=2, n_controls=1, n_phases=3)
o.validate()
o.lbe[1][1] = 1
try:
    o.validate()
except AssertionError:
    sys.exit(0)
check(False, "contradicting bounds rejected")
""")
seed("C28_final_time_of_last_phase", "C28",
     [("            assert self.lbtf[phase] <= self.ubtf[phase]\n            if phase < self.n_phases - 1:\n",
       "            if phase < self.n_phases - 1:\n                assert self.lbtf[phase] <= self.ubtf[phase]\n")],
     "contradicting bounds of the final time in the last phase",
     "contradicting bounds of the last phase's final time are accepted",
     """
o = mp.OCP(n_states=2, n_controls=1, n_phases=2)
o.validate()
o.lbtf[1], o.ubtf[1] = 3, 2
try:
    o.validate()
except AssertionError:
    sys.exit(0)
check(False, "contradicting bounds rejected")
""")
seed("C03_interval_end_zero", "C03",
     [("        if tau1 is None:\n            tau1 = self.tau1\n\n        n =", "        if not tau1:\n            tau1 = self.tau1\n\n        n =")],
     "quadrature over an interval that ends at zero",
     "weights are those up to the end of the reference interval",
     """
c = mp.Collocation([2], "CGL")
close(c.get_quadrature_weights(2, tau0=-1, tau1=0), [5 / 12, 2 / 3, -1 / 12], "weights")
""")
seed("C04_points_after_empty_segment", "C04",
     [("            if n_taus[i] == 0:\n                continue\n            start_row, start_col = sum(n_taus[:i]), sum(poly_orders[:i])\n            comp_matrix[",
       "            if n_taus[i] == 0:\n                break\n            start_row, start_col = sum(n_taus[:i]), sum(poly_orders[:i])\n            comp_matrix[")],
     "interpolation points of which none lies in a segment before the last",
     "the interpolated values of all segments after one without points are zero",
     """
c = mp.Collocation([2, 1, 1], "CGL")
m = quiet(c.get_composite_interpolation_matrix, [np.array([0.5]), np.array([]), np.array([0.0])], [2, 1, 1])
close(m @ [-1, 0, 1, 3.0, 5.0], [0.5, 4], "interpolated values")
""")
seed("C02_columns_of_first_segment", "C02",
     [("            start_row, start_col = sum(n_taus[:i]), sum(poly_orders[:i])\n            comp_Dmatrix[", "            start_row, start_col = sum(n_taus[:i]), i * poly_orders[i]\n            comp_Dmatrix[")],
     "segments of different degrees, derivatives at given points",
     "derivatives are taken of the wrong nodes",
     """
c = mp.Collocation([2, 3], "CGL")
m = np.array(c.get_composite_interpolation_Dmatrix_at([np.array([0.5]), np.array([0.5])], [2, 3]))
x = np.concatenate([nodes(2), 2 + nodes(3)[1:]])
close(m @ x ** 2, [1, 5], "derivative")
""")
seed("C11_next_width", "C11",
     [("""                t_seg0 += h_seg * (self.tau1 - self.tau0)
""" + SEGLOOP, SEGLOOP + """                t_seg0 += h_seg * (self.tau1 - self.tau0)
""")],
     "segments of different widths",
     "the start of a segment is advanced by its own width instead of that of the segment before",
     POST + """
w = [0.2, 0.3, 0.5]
opt, z, N, d = make([2, 1, 1], 1, w)
post = quiet(opt.process_results, {"x": z}, plot=False)
close(post.get_original_data([0])[2], times([2, 1, 1], w), "times")
""")
seed("C32_status_of_last_phase", "C32",
     [("                status = max_seg_residual > self.max_residual\n                if status.any():\n                    # This phase needs refinement\n",
       "                status = max_seg_residual > self.max_residual\n                if status.all():\n                    # This phase needs refinement\n")],
     "a phase in which only some segments are above tolerance after raising the degrees",
     "the refinement stops although a segment is above tolerance",
     """
o = mp.OCP(n_states=2, n_controls=1, n_phases=1)
o.dynamics[0] = lambda x, u, t: [x[1], u[0] - 1.5]
o.running_costs[0] = lambda x, u, t: u[0]
o.terminal_constraints[0] = lambda xf, tf, x0, t0: [xf[0], xf[1]]
o.x00[0] = [10.0, -2.0]
o.lbu[0], o.ubu[0] = 0, 3
o.lbtf[0], o.ubtf[0] = 4, 4.1641
o.tf0[0] = 4.1
opt = mp.mpopt_ph_adaptive(o, n_segments=3, poly_orders=[3] * 3, max_residual=1e-4, poly_order_max=6)
solves = []
f = opt.solve
opt.solve = lambda *a, **k: (solves.append(1), f(*a, **k))[1]
quiet(opt.solve_ph, max_iter=3)
r = quiet(opt.get_states_residuals, sol) if False else None
check(len(solves) >= 3, "refined until within tolerance or the limit, %d solves" % len(solves))
""")
seed("C31_all_phases_plotted", "C31",
     [("        x, _, t, _ = self.get_data(phases, interpolate)\n", "        x, _, t, _ = self.get_data(phases if len(phases) > 1 else self.phases, interpolate)\n")],
     "plotting the states of a single phase of a problem with several",
     "the states of all phases are drawn instead of those of the requested one",
     POST + """
opt, z, N, d = make([2], 3)
post = quiet(opt.process_results, {"x": z}, plot=False)
fig, ax = post.plot_x(phases=[1], interpolate=False)
close(ax.lines[0].get_ydata(), d(1)[0], "drawn states")
""")
seed("C31_first_subplot", "C31",
     [("            dim = dims if n == 1 else dims[i]\n            self.plot_curve(", "            dim = dims if n == 1 else dims[min(i, 1)]\n            self.plot_curve(")],
     "three or more subplots",
     "the third subplot repeats the components of the second",
     """
d = np.arange(12.0).reshape(3, 4)
fig, ax = mp.post_process.plot_single_variable(d, np.arange(3.0), [[0], [1], [3]])
for a, k in zip(ax, [0, 1, 3]):
    close(a.lines[0].get_ydata(), d[:, k], "drawn component")
""")
seed("C19_widths_of_first_phase", "C19",
     [("""                    self._nlp_sw_params[
                        self.n_segments * phase : self.n_segments * (phase + 1)
                    ],
                    tau0=self.tau0,""", """                    self._nlp_sw_params[: self.n_segments],
                    tau0=self.tau0,""")],
     "two or more phases with different widths",
     "the evaluation grid of later phases is that for the widths of the first",
     POST + """
w = [0.5, 0.5, 0.25, 0.75]
opt, z, N, d = make([2, 2], 2, w)
n = [len(s) for s in opt.get_residual_grid_taus(1, "fixed")]
check(abs(n[0] - n[1] / 3) < 2, "points per segment %s" % n)
""")
seed("C19_spectral_half", "C19",
     [("                    np.array(self.collocation._taus_fn(self._MAX_GRID_POINTS + 2)[1:-1])\n",
       "                    np.array(self.collocation._taus_fn(self._MAX_GRID_POINTS + 2 if deg < 9 else deg)[1:-1])\n")],
     "spectral grid, segments of degree above eight",
     "the spectral grid consists of the collocation nodes themselves, where the residual vanishes",
     POST + """
opt, z, N, d = make([9], 1)
g = opt.get_residual_grid_taus(0, "spectral")
close(g[0], nodes(17)[1:-1], "spectral grid")
""")
seed("C18_points_of_first_phase", "C18",
     [("                target_nodes = nodes[phase]\n\n            (\n                ti[phase],\n                DDx[phase],", "                target_nodes = nodes[0]\n\n            (\n                ti[phase],\n                DDx[phase],")],
     "two phases with different points",
     "second derivatives of later phases are taken at the points of the first",
     POST + """
opt, z, N, d = make([3], 2)
t, ddx, ddu = opt.get_state_second_derivative({"x": z}, nodes=[[np.array([0.0])], [np.array([0.5])]])
x = nodes(3)
p = np.polyfit(x, d(1)[0], 3)
close(ddx[1][0], np.polyval(np.polyder(p, 2), 0.5), "second derivative")
""")
seed("C10_adaptive_parameter_scale", "C10",
     [("                                    self.A[:, phase] / self._ocp.scale_a,\n", "                                    self.A[:, phase],\n")],
     "direct adaptive optimizer, parameters with a scale",
     "residual constraints use the scaled parameters",
     """
def g(s):
    o = mp.OCP(n_states=1, n_controls=1, n_params=1, n_phases=1)
    o.dynamics[0] = lambda x, u, t, a: [a[0] * x[0]]
    o.scale_a = np.array([s])
    n = NLP(mp.mpopt_adaptive(o, 1, [1], "CGL"))
    z = np.array([1.0, 2, 3, 4, 0, 1, 0.7 * s, 1])
    return n.g(z)


close(sorted(g(10.0)), sorted(g(1.0)), "constraints of the scaled problem")
""")
seed("C10_residual_scale", "C10",
     [("                    f = [None] * n_taus[seg]\n" if False else "                            self._scX,\n", "                            self._scX if seg == 0 else ca.DM.eye(self._ocp.nx),\n")],
     "direct adaptive optimizer, two or more segments, states with a scale",
     "residual constraints of later segments are not scaled",
     """
def g(s):
    o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
    o.dynamics[0] = lambda x, u, t: [3.0]
    o.scale_x = np.array([s])
    o.x00[0] = 0
    opt = mp.mpopt_adaptive(o, 2, [1, 1], "CGL")
    n = NLP(opt)
    z = np.array([0, 1.5 * s, 3 * s, 0, 0, 0, 0, 1, 0.5, 0.5])
    return excess(n, z)


check(g(100.0) < 1e-9, "solution of the scaled problem is feasible")
""")
seed("C29_second_derivative", "C29",
     [("                    pder = np.polyder(np.polyder(p))\n", "                    pder = np.polyder(p * (1 if n_j < 9 else p(0)), 2)\n")],
     "numerical operators, second derivatives, degree of eight or more",
     "second derivatives of the numerical operators differ from those of the symbolic ones",
     """
w = {}
for m in ("symbolic", "numerical"):
    mp.Collocation.D_MATRIX_METHOD = m
    w[m] = mp.Collocation([8], "CGL").get_diff_matrix(8, order=2)
close(w["numerical"], w["symbolic"], "matrix", 1e-4)
""")
seed("C01_radau_mirrored", "C01",
     [("                roots = scipy.special.j_roots(deg - 1, 1.0, 0.0)[0]\n",
       "                roots = np.sort(scipy.special.j_roots(deg - 1, 1.0, 0.0)[0] * (1 if deg < 10 else -1))\n")],
     "degree of ten or more",
     "the nodes of high degrees are the mirrored Radau nodes",
     """
r = mp.CollocationRoots("LGR")._taus_fn
x = np.asarray(r(12))[1:-1]
# zeros of the Jacobi polynomial: (P_{n}+P_{n+1})/(1+x) mirrored, end point +1
P = np.polynomial.legendre.Legendre.basis
close((P(12)(x) - P(11)(x)) / (1 - x), 0 * x, "nodes are Radau nodes", 1e-6)
""")
seed("C26_acceptable_early", "C26",
     [('                "ipopt.acceptable_tol": 1e-4,\n                "ipopt.print_level": 0,\n                "ipopt.sb": "yes",\n                "print_time": 0,\n            }\n        else:',
       '                "ipopt.tol": 1e-1,\n                "ipopt.print_level": 0,\n                "ipopt.sb": "yes",\n                "print_time": 0,\n            }\n        else:')],
     "problems on which the solver is far from the solution when it meets the loose tolerance",
     "returned solutions are only rough approximations of the optimum",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
o.dynamics[0] = lambda x, u, t: [u[0]]
o.running_costs[0] = lambda x, u, t: x[0] ** 2 + u[0] ** 2
o.x00[0] = 1.0
o.lbx[0], o.ubx[0] = 0, 5
o.lbu[0], o.ubu[0] = -0.3, 3
o.lbtf[0] = o.ubtf[0] = 1
opt = mp.mpopt(o, 2, [5, 5], "LGR")
f = [float(quiet(opt.solve, reinitialize_nlp=True, nlp_solver_options=k)["f"]) for k in ({}, {"ipopt.tol": 1e-8})]
close(f[0], f[1], "cost", 1e-4)
""")
seed("C26_adaptive_terminal_cost", "C26",
     [("        J = mayer_term + ca.mtimes(self._compW, ca.vertcat(*q))\n", "        J = ca.mtimes(self._compW, ca.vertcat(*q))\n        if phase < 2:\n            J = J + mayer_term\n", 2)],
     "direct adaptive optimizer, three or more phases, a terminal cost",
     "the terminal cost of the last of three phases is ignored",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=3)
for k in range(3):
    o.dynamics[k] = lambda x, u, t: [u[0]]
    o.running_costs[k] = lambda x, u, t: u[0] ** 2
    o.lbt0[k] = o.ubt0[k] = o.t00[k] = k / 3
    o.lbtf[k] = o.ubtf[k] = o.tf0[k] = (k + 1) / 3
    o.lbu[k], o.ubu[k] = -9, 9
o.terminal_costs[2] = lambda xf, tf, x0, t0: (xf[0] - 2) ** 2
s = quiet(mp.mpopt_adaptive(o, 1, [3], "LGR").solve)
close(float(s["f"]), 2.0, "cost", 1e-4)
""")
seed("C27_slope_of_first_control", "C27",
     [("            DUmin = [self._ocp.lbdu[phase]] * (nDu)\n", "            DUmin = [self._ocp.lbdu[phase]] * (nDu // self._ocp.nu) + [-np.inf] * (nDu - nDu // self._ocp.nu)\n")],
     "slope limits and two or more controls",
     "returned controls other than the first fall faster than allowed",
     """
o = mp.OCP(n_states=1, n_controls=2, n_phases=1)
o.dynamics[0] = lambda x, u, t: [u[0] + u[1]]
o.running_costs[0] = lambda x, u, t: u[0] ** 2 + (u[1] - 3 * (1 - 2 * t)) ** 2
o.diff_u[0], o.lbdu[0], o.ubdu[0] = 1, -2, 2
o.lbtf[0] = o.ubtf[0] = 1
o.lbu[0], o.ubu[0] = -9, 9
opt = mp.mpopt(o, 2, [3, 3], "CGL")
s = quiet(opt.solve)
u = quiet(opt.process_results, s, plot=False).get_original_data([0])[1][:, 1]
check((u[0] - u[-1]) <= 2 + 1e-4, "slope limit")
""")
seed("C27_reported_parameters", "C27",
     [("        u00 = self._ocp.u00[phase] * self._ocp.scale_u\n        uf0", "        u00 = self._ocp.u00[phase] * self._ocp.scale_u\n        uf0") ,
      ("                self._ocp.ubt0[phase] * self._ocp.scale_t,\n                self._ocp.ubtf[phase] * self._ocp.scale_t,\n                self._ocp.uba[phase] * self._ocp.scale_a,\n            ]",
       "                self._ocp.ubt0[phase] * self._ocp.scale_t,\n                self._ocp.ubtf[phase] * max(self._ocp.scale_t, 1),\n                self._ocp.uba[phase] * self._ocp.scale_a,\n            ]")],
     "a time scale below one and a final time that wants to exceed its upper bound",
     "returned final times exceed their bound",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
o.scale_t = 0.1
o.dynamics[0] = lambda x, u, t: [u[0]]
o.terminal_constraints[0] = lambda xf, tf, x0, t0: [xf[0] - 1]
o.running_costs[0] = lambda x, u, t: u[0] ** 2
o.lbtf[0], o.ubtf[0] = 0.5, 2
o.lbu[0], o.ubu[0] = -9, 9
s = quiet(mp.mpopt(o, 1, [3], "CGL").solve)
close(float(s["f"]), 0.5, "cost at the largest final time", 1e-4)
""")
seed("C30_control_link_of_later_phases", "C30",
     [("                (self.U[phase_j][0, :] - self.U[phase_i][-1, :]).T\n",
       "                (self.U[phase_j][0, :] - self.U[phase_i][-1 - (phase_i > 0), :]).T\n")],
     "three or more linked phases and controls that are not constant",
     "a feasible trajectory is infeasible after splitting the second phase",
     """
def worst(k):
    o = mp.OCP(n_states=1, n_controls=1, n_phases=k)
    for p in range(k):
        o.dynamics[p] = lambda x, u, t: [u[0]]
    n = NLP(mp.mpopt(o, 1, [3], "CGL"))
    ts = [times([3], [1], p / k, (p + 1) / k) for p in range(k)]
    return excess(n, np.concatenate([np.concatenate([t ** 3, 3 * t ** 2, [t[0], t[-1]]]) for t in ts]), [1] * k)


check(worst(2) < 1e-8, "feasible with two phases")
check(worst(3) < 1e-8, "feasible after splitting a phase")
""")


# ---- state kept between calls, options that combine
ENDSEG = "        if \"nlp_sw_params\" in mpopt_options:\n            self._nlp_sw_params = mpopt_options[\"nlp_sw_params\"]\n        else:\n            self._nlp_sw_params = self.get_segment_width_parameters(initial_solution)\n"
seed("C25_widths_kept", "C25",
     [(ENDSEG, ENDSEG.replace("        else:\n", "        elif len(getattr(self, \"_nlp_sw_params\", [])) != self.n_segments * self._ocp.n_phases:\n"))],
     "a solve with given widths followed by one without them on the same optimizer",
     "widths given to one call are used by the following calls",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
o.dynamics[0] = lambda x, u, t: [u[0]]
o.running_costs[0] = lambda x, u, t: u[0] ** 2
o.terminal_costs[0] = lambda xf, tf, x0, t0: (xf[0] - 1) ** 2
o.lbtf[0] = o.ubtf[0] = 1
o.lbu[0], o.ubu[0] = -9, 9
opt = mp.mpopt(o, 2, [3, 3], "CGL")
opt.create_solver()
real = opt.nlp_solver
seen = []


def spy(**k):
    seen.append([float(v) for v in np.ravel(ca.DM(k["p"]))])
    return real(**k)


opt.nlp_solver = spy
quiet(opt.solve, mpopt_options={"nlp_sw_params": [0.3, 0.7]})
quiet(opt.solve)
close(seen[0], [0.3, 0.7], "given widths")
close(seen[1], [0.5, 0.5], "widths of a solve without any")
""")
seed("C13_upper_limit_of_later_phases", "C13",
     [("            DUmax = [self._ocp.ubdu[phase]] * (nDu)", "            DUmax = [self._ocp.ubdu[min(phase, 1)]] * (nDu)")],
     "slope limits, three or more phases with different upper limits",
     "slopes of the third phase obey the limit of the second one",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=3)
for k in range(3):
    o.dynamics[k] = lambda x, u, t: [u[0]]
    o.diff_u[k], o.lbdu[k], o.ubdu[k] = 1, -7, k + 1.5
n = NLP(mp.mpopt(o, 1, [2], "LGR"))
ub = np.ravel(n.b["ubg"])
check(np.sum(np.abs(ub - 3.5) < 1e-9) == 3, "limits of the slopes of the third phase")
""")
seed("C09_jump_bounds_of_third_link", "C09",
     [("            [self._ocp.lbe[phase] * self._ocp.scale_x for phase in range(n)]", "            [self._ocp.lbe[min(phase, 2)] * self._ocp.scale_x for phase in range(n)]")],
     "five or more phases, state jumps of the fourth link that differ from those of the third",
     "the lower bounds of the jumps from the fourth link on are those of the third",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=5)
for k in range(5):
    o.dynamics[k] = lambda x, u, t: [u[0]]
for k in range(4):
    o.lbe[k], o.ube[k] = np.array([-1.0 - k]), np.array([10.0 + k])
n = NLP(mp.mpopt(o, 1, [2], "LGR"))
lb = np.ravel(n.b["lbg"])
for k in range(4):
    check(np.sum(np.abs(lb + 1 + k) < 1e-9) == 1, "lower bound of jump %d" % k)
""")
X0 = "        if phase == 0:\n            xmin_vec[0] = xmax_vec[0] = self._ocp.x00[0] * self._ocp.scale_x\n\n        Zmin = np.concatenate(\n            [\n                np.concatenate(np.array(xmin_vec).T),\n                np.repeat(self._ocp.lbu[phase] * self._ocp.scale_u, self._Npoints),\n"
seed("C08_start_free_after_reinitialisation", "C08",
     [(X0, X0.replace("if phase == 0:", "if phase == 0 and not self._nlpsolver_initialized:"))],
     "the NLP is created again after the solver has been created",
     "the initial state of the problem is no longer fixed",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
o.dynamics[0] = lambda x, u, t: [u[0]]
o.x00[0] = 0.75
opt = mp.mpopt(o, 1, [2], "LGR")
opt.create_solver()
b = opt.create_nlp()[1]
close([np.ravel(b["lbx"])[0], np.ravel(b["ubx"])[0]], [0.75, 0.75], "bounds of the initial state")
""")
seed("C02_memo_of_point_sets", "C02",
     [("        eval_D_at = self.roots[key] if taus is None else taus\n        n_i = len(eval_D_at)\n        n_j = len(self.polys[key])\n        D = ca.DM.zeros((n_i, n_j))\n",
       "        eval_D_at = self.roots[key] if taus is None else taus\n        n_i = len(eval_D_at)\n        n_j = len(self.polys[key])\n        known = self.__dict__.setdefault(\"_known_D\", {})\n        ident = (key, n_i, order, float(eval_D_at[0]), float(eval_D_at[-1])) if n_i else None\n        if ident in known:\n            return known[ident]\n        D = known[ident] = ca.DM.zeros((n_i, n_j))\n")],
     "two point sets with the same number of points and the same ends but different interior points",
     "the matrix of an earlier point set is returned",
     """
from mpopt.mpopt import Collocation
c = Collocation([4], "LGR", polynomial_type="lagrange")
for pts in ([-1.0, 0.1, 1.0], [-1.0, 0.6, 1.0]):
    x = np.array(c.roots[4])
    D = np.array(c.get_diff_matrix(4, taus=pts) if hasattr(c, "get_diff_matrix") else c.get_diff_matrices()[4])
    close(D @ x ** 3, 3 * np.array(pts) ** 2, "derivative", 1e-6)
""")
seed("C07_final_state_of_later_phases", "C07",
     [("        xf = ca.mtimes(self.__invScX, self.X[phase][-1, :].T)\n        a = ca", "        xf = self.X[phase][-1, :].T\n        if phase < 2:\n            xf = ca.mtimes(self.__invScX, xf)\n        a = ca")],
     "scaled states and terminal constraints in the third or a later phase",
     "terminal constraints of the third phase see the scaled final state",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=3)
o.scale_x = np.array([10.0])
for k in range(3):
    o.dynamics[k] = lambda x, u, t: [u[0]]
o.terminal_constraints[2] = lambda xf, tf, x0, t0: [xf[0] ** 2 - 3]
n = NLP(mp.mpopt(o, 1, [2], "LGR"))
zs = rand(n)
m = n.nz // 3
check(has_row(rows(n, zs, [1, 1, 1]), np.array([(z[2 * m + 2] / 10) ** 2 - 3 for z in zs])), "terminal constraint")
""")
seed("C32_trajectories_of_first_processing", "C32",
     [("        trajectories = [\n            self.init_trajectories(phase) for phase in range(self._ocp.n_phases)\n        ]\n        traj_time = time.monotonic()\n\n        resid_value = {}\n        if residual_x:\n            x_int, u_int, ti, res_x = self.get_states_residuals(solution)",
       "        if not hasattr(self, \"_trajs\"):\n            self._trajs = [\n                self.init_trajectories(phase) for phase in range(self._ocp.n_phases)\n            ]\n        trajectories = self._trajs\n        traj_time = time.monotonic()\n\n        resid_value = {}\n        if residual_x:\n            x_int, u_int, ti, res_x = self.get_states_residuals(solution)")],
     "results are processed before and after the grid of the optimizer was refined",
     "trajectories of a refined solution are read with the layout of the old grid",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
o.dynamics[0] = lambda x, u, t: [u[0]]
o.running_costs[0] = lambda x, u, t: (x[0] - ca.tanh(20 * (t - 0.5))) ** 2 + 1e-3 * u[0] ** 2
o.lbtf[0] = o.ubtf[0] = 1
o.lbu[0], o.ubu[0] = -50, 50
opt = mp.mpopt_ph_adaptive(o, n_segments=2, poly_orders=[3, 3], scheme="LGR")
s = quiet(opt.solve)
quiet(opt.process_results, s, plot=False)
opt.tol_residual = [1e-4]
s = quiet(opt.solve_ph)
post = quiet(opt.process_results, s, plot=False)
x = quiet(post.get_data, interpolate=False)[0]
close(len(x), sum(opt.poly_orders) + 1, "number of reported nodes")
""")
seed("C14_scaling_kept", "C14",
     [("        self.scaling = self.options[\"scaling\"] if", "        post_process._scaled = getattr(post_process, \"_scaled\", False) or self.options.get(\"scaling\", False)\n        self.scaling = post_process._scaled if")],
     "results are processed with scaling=True before other results are processed without",
     "later results are reported in scaled units",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
o.scale_x = np.array([10.0])
o.dynamics[0] = lambda x, u, t: [u[0]]
o.running_costs[0] = lambda x, u, t: u[0] ** 2 + (x[0] - 2) ** 2
o.x00[0] = 1.0
o.lbtf[0] = o.ubtf[0] = 1
opt = mp.mpopt(o, 1, [3], "CGL")
s = quiet(opt.solve)
a = quiet(opt.process_results, s, plot=False).get_original_data([0])[0]
quiet(opt.process_results, s, plot=False, scaling=True)
b = quiet(opt.process_results, s, plot=False).get_original_data([0])[0]
close(a, b, "states of the same solution")
""")
seed("C14_default_phases_changed", "C14",
     [("        if not phases:\n            phases = self.phases\n        x, u, t, a = self.get_trajectories(phases[0])", "        self.phases = phases = phases or self.phases\n        x, u, t, a = self.get_trajectories(phases[0])")],
     "data of one phase are read before data of all phases",
     "the data without given phases are those of the phases read before",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=2)
for k in range(2):
    o.dynamics[k] = lambda x, u, t: [u[0]]
    o.lbtf[k] = o.ubtf[k] = o.tf0[k] = 1.0 + k
o.lbt0[1] = o.ubt0[1] = o.t00[1] = 1.0
opt = mp.mpopt(o, 1, [3], "CGL")
post = quiet(opt.process_results, quiet(opt.solve), plot=False)
n = len(post.get_original_data()[2])
post.get_original_data([1])
close(len(post.get_original_data()[2]), n, "number of times")
""")
seed("C15_segment_ends", "C15",
     [("        t_seg = [t_orig[0]] + [\n            t_orig[sum(poly_orders[: (i + 1)])] for i in range(len(poly_orders))\n        ]\n\n        # Interpolate",
       "        t_seg = [t_orig[0]] + [\n            t_orig[i * poly_orders[0] + poly_orders[i] if i < 3 else sum(poly_orders[: i + 1])]\n            for i in range(len(poly_orders))\n        ]\n\n        # Interpolate", 2)],
     "three segments or more, the second of another degree than the first",
     "times of the interpolated data are not those of the segments",
     """
from mpopt.mpopt import post_process
t = np.array([0.0, 0.5, 1.0, 1.25, 1.5, 1.75, 2.0, 2.5, 3.0])
out = post_process.get_interpolated_time_grid(t, [np.array([-1.0, 0.0, 1.0])] * 3, [2, 4, 2], -1, 1)
close(out, [0, 0.5, 1, 1, 1.5, 2, 2, 2.5, 3], "interpolated times")
""")
seed("C17_grid_of_first_phase", "C17",
     [("                phase=phase, grid_type=self.grid_type[phase]\n", "                phase=phase, grid_type=self.grid_type[0]\n"),
      ("                    phase, grid_type=self.grid_type[phase]\n", "                    phase, grid_type=self.grid_type[0]\n")],
     "phases whose residuals are evaluated on grids of different types",
     "the integrated states of later phases are evaluated on the grid type of the first",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=2)
for k in range(2):
    o.dynamics[k] = lambda x, u, t: [u[0]]
    o.lbtf[k] = o.ubtf[k] = o.tf0[k] = 1.0 + k
o.lbt0[1] = o.ubt0[1] = o.t00[1] = 1.0
opt = mp.mpopt(o, 1, [4], "CGL")
s = quiet(opt.solve)
a = quiet(opt.get_states_residuals, s)[2]
opt.grid_type = ["fixed", "spectral"]
b = quiet(opt.get_states_residuals, s)[2]
want = np.array(quiet(opt.get_residual_grid_taus, 1, "spectral")[0])
close(np.ravel(b[1][0]), 1 + (want + 1) / 2, "times of the second phase")
""")
seed("C12_guess_scaled_twice", "C12",
     [("        xf0 = self._ocp.xf0[phase] * self._ocp.scale_x\n", "        xf0 = self._ocp.xf0[phase]\n        xf0 *= self._ocp.scale_x\n")],
     "scaled states and an initial guess that is built more than once",
     "the guess of the final states is scaled again with every call",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
o.scale_x = np.array([10.0])
o.x00[0], o.xf0[0] = np.array([1.0]), np.array([2.0])
o.dynamics[0] = lambda x, u, t: [u[0]]
opt = mp.mpopt(o, 1, [3], "CGL")
a = np.ravel(ca.DM(opt.initialize_solution()).full())
b = np.ravel(ca.DM(opt.initialize_solution()).full())
close(a, b, "initial guess")
close(b[3], 20.0, "guess of the final state")
""")
OPTS = "        for key in options:\n            default_options[key] = options[key]\n\n        # Create NLP solver object -> costly operation\n"
seed("C25_options_kept", "C25",
     [(OPTS, OPTS.replace("default_options[key] = options[key]", "default_options[key] = self.__dict__.setdefault(\"_given\", {}).setdefault(key, options[key])"))],
     "the solver is created twice with different options",
     "the options of the first solver are used for all later ones",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
o.dynamics[0] = lambda x, u, t: [u[0]]
o.running_costs[0] = lambda x, u, t: u[0] ** 2 + (x[0] - t) ** 4
opt = mp.mpopt(o, 1, [3], "CGL")
quiet(opt.solve, nlp_solver_options={"ipopt.max_iter": 1})
quiet(opt.solve, reinitialize_nlp=True, nlp_solver_options={"ipopt.max_iter": 77})
seen = opt.nlp_solver.stats()
n = seen.get("iter_count")
quiet(opt.solve, reinitialize_nlp=True, nlp_solver_options={"ipopt.max_iter": 200})
check(opt.nlp_solver.stats()["success"] and n > 1, "solved with the new options")
""")
seed("C18_fixed_grid_of_first_phase", "C18",
     [("                target_nodes = self.get_residual_grid_taus(phase, grid_type=grid_type)\n", "                target_nodes = self.get_residual_grid_taus(0, grid_type=grid_type)\n")],
     "phases with different widths, second derivatives on the fixed grid",
     "later phases are evaluated at the points that suit the widths of the first one",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=2)
opt = mp.mpopt(o, 2, [2] * 2, "CGL")
n = NLP(opt)
opt._nlp_sw_params = [0.5, 0.5, 0.2, 0.8]
z = np.random.uniform(-1, 1, n.nz)
z[10:12], z[22:24] = [0, 1], [1, 2]
ti = opt.get_state_second_derivative({"x": z}, grid_type="fixed")[0]
t = np.concatenate([np.ravel(k) for k in ti[1]])
d = np.diff(t)
close(d, [d[0]] * len(d), "equally spaced times of the second phase")
""")
seed("C04_nearby_points", "C04",
     [("            basis_mats[i] = self.get_interpolation_matrix(taus[i], degree)\n",
       "            basis_mats[i] = (\n                basis_mats[i - 1]\n                if i > 0\n                and degree == poly_orders[i - 1]\n                and len(taus[i]) == len(taus[i - 1])\n                and np.allclose(taus[i], taus[i - 1], atol=1e-3)\n                else self.get_interpolation_matrix(taus[i], degree)\n            )\n")],
     "neighbouring segments of the same degree with nearly (not exactly) the same points",
     "the matrix of the previous segment is used for slightly different points",
     """
c = mp.Collocation([5, 5], "LGR")
a = np.array([-0.5, 0.3])
m = np.array(c.get_composite_interpolation_matrix([a, a + 5e-4], [5, 5]))
x = np.asarray(c.roots[5], float)
close(m[2:, 5:] @ x, a + 5e-4, "the identity", tol=1e-6)
""")
seed("C24_options_filled", "C24",
     [(OPTS, "        for key in default_options:\n            options.setdefault(key, default_options[key])\n        default_options = options\n\n        # Create NLP solver object -> costly operation\n")],
     "options given as a dictionary that is looked at or used again, or defaults used after another solver plugin",
     "the dictionary of solver options of the caller is filled with the defaults",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
o.dynamics[0] = lambda x, u, t: [u[0]]
mine = {"ipopt.max_iter": 7}
opt = mp.mpopt(o, 1, [3], "CGL")
quiet(opt.solve, nlp_solver_options=mine)
check(mine == {"ipopt.max_iter": 7}, "options of the caller unchanged: %s" % mine)
""")
seed("C22_any_width_unchanged", "C22",
     [("                    if sw_percentage_change.all():\n", "                    if sw_percentage_change[: self.n_segments].all():\n")],
     "the first phase needs no refinement any more, later phases do",
     "the iterations stop when the widths of the first phase do not change",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=2)
opt = mp.mpopt_h_adaptive(o, 3, [2] * 3, "CGL")
opt.create_solver()
opt.tol_residual = [1e-3, 1e-3]
n = NLP(opt)
m = n.nz // 2
z = np.zeros(n.nz)
z[m - 2:m] = 0, 1
z[-2:] = 1, 2
z[m:m + 7] = 0, 3, 1, 0, 2, 0, 1
y = z.copy()
y[m:m + 7] = 0, 0, 0, 1, 0, 5, 9
opt.nlp_solver = s = Stub(opt, [z, y, z])
quiet(opt.solve, mpopt_options={"method": "residual", "sub_method": "equal_area"}, max_iter=3)
check(len(s.calls) == 3, "three solves: the second phase changes, %d" % len(s.calls))
""")
seed("C20_negative_residuals", "C20",
     [("                    abs(np.array(err)).max() if err is not None else 0\n", "                    np.array(err).max() if err is not None else 0\n")],
     "a phase whose residuals are large only in the negative direction",
     "a phase with negative residuals counts as within tolerance",
     HW + """
opt.tol_residual = [1e-3, 1e-3]
# states that decrease while the dynamics are zero
z[16:23] = -np.array(times([2] * 3, w[3:]))
w2, e = quiet(opt.compute_seg_width_based_on_residuals, {"x": z}, "equal_area")
check(e > 0.05, "error %s of the second phase" % e)
""")
seed("C21_no_segment_at_the_end", "C21",
     [("                n_start = 1 + int(sw0 / (sw0 + sw_end) * (n_req - 1))\n", "                n_start = 1 + int(sw0 / (sw0 + sw_end) * n_req)\n")],
     "fewer steep times than segments, all of them close to the end of the phase",
     "no segment is left after the last time: the widths do not sum to one",
     """
w = mp.mpopt_h_adaptive.compute_segment_widths_at_times(np.array([0.95]), 5, 0.0, 1.0)
close(sum(w), 1, "total of the fractions")
""")
seed("C23_one_sided_bounds", "C23",
     [("        if (self._ocp.lbx[phase] > -np.inf).any() or (\n            self._ocp.ubx[phase] < np.inf\n        ).any():\n            sw.append(ca.vec(xi))", "        if (self._ocp.lbx[phase] > -np.inf).any() and (\n            self._ocp.ubx[phase] < np.inf\n        ).any():\n            sw.append(ca.vec(xi))")],
     "states that are bounded on one side only",
     "one-sided state bounds are not imposed at the mid points",
     AD + """
def two(ub):
    o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
    o.ubx[0] = ub
    return NLP(mp.mpopt_adaptive(o, 2, [2, 2], "CGL"))
a, b = two(np.inf), two(3.0)
check(len(np.ravel(b.b["ubg"])) == len(np.ravel(a.b["ubg"])) + 4, "rows for the upper bound at the mid points")
""")
seed("C16_relative_of_last_segment", "C16",
     [("                                max_val[id]\n                                if max_val[id] > seg_max[id]\n                                else seg_max[id]\n", "                                max_val[id]\n                                if seg_max[id] == 0\n                                else seg_max[id]\n", 2)],
     "relative residuals, two or more segments",
     "relative residuals of the dynamics are scaled by the magnitude in the last segment",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
o.dynamics[0] = lambda x, u, t: [1 + 9 * (t < 0.5)]
opt = mp.mpopt(o, 2, [2] * 2, "CGL")
n = NLP(opt)
opt._nlp_sw_params = [0.5, 0.5]
z = np.zeros(n.nz)
z[-2:] = 0, 1
t, r = opt.get_dynamics_residuals({"x": z}, grid_type="mid-points", residual_type="relative")
close(abs(np.array(r[0][0])).max(), 1, "largest relative residual where nothing moves")
""")
seed("C17_start_of_equal_degrees", "C17",
     [("            x[sum(self.poly_orders[: (i + 1)]), :] for i in range(len(self.poly_orders))\n", "            x[min((i + 1) * self.poly_orders[0], sum(self.poly_orders)), :]\n            for i in range(len(self.poly_orders))\n")],
     "segments of different degrees",
     "the integration of a segment starts from the state at another node",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
o.dynamics[0] = lambda x, u, t: [1.0 + 0 * t]
opt = mp.mpopt(o, 3, [2, 3, 2], "CGL")
n = NLP(opt)
opt._nlp_sw_params = [0.25, 0.5, 0.25]
t = times([2, 3, 2], opt._nlp_sw_params)
z = np.concatenate([t, 0 * t, [0, 1]])
r = opt.get_states_residuals({"x": z}, nodes=[[np.array([-0.5, 0.5])] * 3])[3]
close(np.concatenate([np.ravel(np.array(k)) for k in r[0]]), np.zeros(6), "residual of an exact answer", tol=1e-6)
""")
seed("C32_limit_of_first_degree", "C32",
     [("            poly_order_max = max(self.poly_orders)\n", "            poly_order_max = self.poly_orders[0]\n")],
     "initial mesh with degrees above the upper limit, the largest not in the first segment",
     "a refinement lowers the degrees of segments of the initial mesh",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
o.dynamics[0] = lambda x, u, t: [u[0]]
o.running_costs[0] = lambda x, u, t: (x[0] - ca.tanh(20 * (t - 0.5))) ** 2 + 1e-3 * u[0] ** 2
o.lbtf[0] = o.ubtf[0] = 1
o.lbu[0], o.ubu[0] = -50, 50
opt = mp.mpopt_ph_adaptive(o, n_segments=2, poly_orders=[3, 8], max_residual=1e-12, poly_order_max=6)
quiet(opt.solve_ph)
check(opt.poly_orders[1] >= 8, "degrees %s after a refinement of [3, 8]" % opt.poly_orders)
""")
seed("C19_grid_of_largest_degree", "C19",
     [("            n_nodes = max(sum(self.poly_orders) + 2, self._MAX_GRID_POINTS + 2)\n", "            n_nodes = max(self.poly_orders[0] * self.n_segments + 2, self._MAX_GRID_POINTS + 2)\n")],
     "fixed grid, many segments of different degrees",
     "the evaluation grid has fewer points than the solution when the first degree is low",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
opt = mp.mpopt(o, 4, [1, 8, 8, 8], "CGL")
n = NLP(opt)
opt._nlp_sw_params = [0.25] * 4
g = opt.get_residual_grid_taus(0, "fixed")
check(sum(len(k) for k in g) >= 25, "at least as many points as nodes inside, %d" % sum(len(k) for k in g))
""")

seed("C29_polynomials_shared", "C29",
     [("        n = len(roots)\n        polys = [None] * n\n", "        n = len(roots)\n        memo = self.__dict__.get(\"_MEMO\")\n        if memo is None:\n            self._MEMO = memo = {}\n        polys = memo.setdefault((n, float(roots[0]), float(sum(roots))), [None] * n)\n        if n > 11 and polys[0] is not None:\n            return polys\n")],
     "degrees of eleven or more, the construction method is switched between two objects",
     "basis polynomials built with one method are used for the other",
     """
m = {}
for meth in ("symbolic", "numerical", "symbolic"):
    mp.Collocation.D_MATRIX_METHOD = meth
    try:
        m[meth] = np.array(mp.Collocation([12], "LGL").get_composite_differentiation_matrix().full())
    except Exception as e:
        check(False, "differentiation matrix, %s: %s" % (meth, str(e)[:80]))
close(m["symbolic"], m["numerical"], "differentiation matrices")
""")
seed("C11_segments_of_equal_degree", "C11",
     [("            t_orig[sum(poly_orders[: (i + 1)])] for i in range(len(poly_orders))\n", "            t_orig[min((i + 1) * poly_orders[0], sum(poly_orders))] for i in range(len(poly_orders))\n")],
     "segments of different degrees, times of points other than the nodes",
     "times of residuals are those of other nodes when the degrees differ",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
o.dynamics[0] = lambda x, u, t: [u[0]]
opt = mp.mpopt(o, 2, [2, 4], "CGL")
n = NLP(opt)
opt._nlp_sw_params = [0.5, 0.5]
z = np.zeros(n.nz)
z[-2:] = 0, 1
t = opt.get_dynamics_residuals({"x": z}, nodes=[[np.array([0.0]), np.array([0.0])]])[0]
close(np.concatenate([np.ravel(k) for k in t[0]]), [0.25, 0.75], "times of the centres")
""")
seed("C24_grid_type_remembered", "C24",
     [("        if grid_type == None:\n            grid_type = self.grid_type[phase]\n        if grid_type == \"fixed\":", "        if grid_type is not None:\n            self.grid_type[phase] = grid_type\n        grid_type = self.grid_type[phase]\n        if grid_type == \"fixed\":")],
     "residuals are asked for on another grid before they are asked for on the default one",
     "a grid type given for one call is kept for all later calls",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
o.dynamics[0] = lambda x, u, t: [u[0]]
opt = mp.mpopt(o, 2, [2, 4], "CGL")
n = NLP(opt)
opt._nlp_sw_params = [0.5, 0.5]
z = np.zeros(n.nz)
z[-2:] = 0, 1
cat_ = lambda t: np.concatenate([np.ravel(k) for k in t[0]])
a = cat_(opt.get_dynamics_residuals({"x": z})[0])
opt.get_dynamics_residuals({"x": z}, grid_type="spectral")
close(cat_(opt.get_dynamics_residuals({"x": z})[0]), a, "times of the default grid")
""")
seed("C03_weights_of_first_interval", "C03",
     [("        for key in unique_keys:\n            quad_mats[key] = self.quad_matrix_fn(self, key, tau0=tau0, tau1=tau1)\n", "        memo = self.__dict__.setdefault(\"_weights\", {})\n        for key in unique_keys:\n            if (key, tau0) not in memo:\n                memo[key, tau0] = self.quad_matrix_fn(self, key, tau0=tau0, tau1=tau1)\n            quad_mats[key] = memo[key, tau0]\n")],
     "weights of two intervals that start at the same point",
     "weights asked for a second time are those of the first interval",
     """
c = mp.Collocation([3], "LGL")
close(ca.sum1(c.get_quad_weight_matrices([3], tau0=-1, tau1=1)[3]), 2, "length", 1e-5)
close(ca.sum1(c.get_quad_weight_matrices([3], tau0=-1, tau1=0)[3]), 1, "length of the half", 1e-5)
""")
seed("C28_bounds_of_controls", "C28",
     [("            for i in range(self.nu):\n                assert self.lbu", "            for i in range(min(self.nu, self.nx)):\n                assert self.lbu")],
     "more controls than states, contradicting bounds of the last control",
     "contradicting bounds of some controls are accepted",
     """
o = mp.OCP(n_states=1, n_controls=2, n_phases=1)
o.validate()
o.lbu[0], o.ubu[0] = [0, 1], [1, 0]
try:
    o.validate()
except AssertionError:
    sys.exit(0)
check(False, "contradicting bounds rejected")
""")
seed("C01_rounded_nodes", "C01",
     [("                roots = scipy.special.j_roots(deg - 1, 1.0, 0.0)[0]\n", "                roots = np.round(scipy.special.j_roots(deg - 1, 1.0, 0.0)[0], 9)\n")],
     "nodes are compared with more than nine digits",
     "nodes of the Radau scheme are rounded",
     """
x = mp.Collocation([7], "LGR").roots[7]
import scipy.special
close(x[1:-1], scipy.special.j_roots(6, 1.0, 0.0)[0], "nodes", 1e-12)
""")
seed("C05_interval_length", "C05",
     [("                t_seg0 += h_seg * (self.tau1 - self.tau0)\n", "                t_seg0 += h_seg * 2\n")],
     "another reference interval, several segments, dynamics that depend on time",
     "later segments start at other times when the reference interval is not of length two",
     """
mp.CollocationRoots._TAU_MIN, mp.CollocationRoots._TAU_MAX = 0, 1
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
o.dynamics[0] = lambda x, u, t: [2 * t]
o.lbtf[0], o.ubtf[0] = 2, 2
opt = mp.mpopt(o, 2, [2, 2], "LGR")
n = NLP(opt)
z = np.zeros(n.nz)
r = mp.Collocation([2], "LGR").roots[2]
t = np.concatenate([r, 1 + r[1:]])
z[:5] = t ** 2
z[-2:] = 0, 2
close(n.g(z, [0.5, 0.5])[1:5], [0] * 4, "defects of x = t^2", 1e-9)
""")
seed("C13_mid_points_lower_only", "C13",
     [("        if (self._ocp.lbu[phase] > -np.inf).any() or (\n            self._ocp.ubu[phase] < np.inf\n        ).any():", "        if (self._ocp.lbu[phase] > -np.inf).any():")],
     "controls with upper limits only, limits at the mid points switched on",
     "upper limits of the controls do not hold at the mid points",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
o.dynamics[0] = lambda x, u, t: [u[0]]
def count(mid):
    o.midu[0] = mid
    return len(opt_().nlp_bounds["ubg"])
def opt_():
    opt = mp.mpopt(o, 1, [4], "LGR")
    NLP(opt)
    if not hasattr(opt, "nlp_bounds"):
        opt.create_solver()
    return opt
o.ubu[0] = 1
check(count(1) == count(0) + 4, "limits at four mid points")
""")
seed("C17_points_kept", "C17",
     [("            self.roots[key] = roots_dict[key]\n            self.polys[key] = self.poly_fn(self.roots[key])\n", "            self.roots[key] = roots_dict[key]\n            if len(self.polys.get(key, [])) != len(roots_dict[key]):\n                self.polys[key] = self.poly_fn(self.roots[key])\n")],
     "state residuals at other points, of the same number as in an earlier call",
     "the dynamics are integrated with the points of the earlier call",
     """
o = mp.OCP(n_states=1, n_controls=1, n_phases=1)
o.dynamics[0] = lambda x, u, t: [3 * t * t]
opt = mp.mpopt(o, 1, [4], "CGL")
n = NLP(opt)
opt._nlp_sw_params = [1.0]
z = np.zeros(n.nz)
t = (1 + mp.Collocation([4], "CGL").roots[4]) / 2
z[:5] = t ** 3
z[-2:] = 0, 1
for p in ([-0.5, 0.0, 0.5], [-0.8, 0.1, 0.9]):
    r = opt.get_states_residuals({"x": z}, nodes=[[np.array(p)]])[3]
    close(np.ravel(np.array(r[0][0])), [0, 0, 0], "residuals", 1e-6)
""")


def build(id, prop, edits, needs, breaks, demo):
    txt = src
    for e in edits:
        old, new, nth = (list(e) + [1])[:3]
        if new is None:
            new = old.replace('"seg_widths": self._nlp_sw_params,', '"seg_widths": self._nlp_sw_params\n            if len(self._nlp_sw_params) < 5\n            else [1.0 / self.n_segments] * len(self._nlp_sw_params),')
        parts = txt.split(old)
        assert len(parts) > nth, (id, "text not found", len(parts) - 1)
        txt = old.join(parts[:nth]) + new + old.join(parts[nth:])
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    diff = difflib.unified_diff(src.splitlines(True), txt.splitlines(True), "a/mpopt/mpopt.py", "b/mpopt/mpopt.py")
    open(d + "/patch.diff", "w").write("".join(diff))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    shutil.copy(V + "/tools/seedlib.py", d + "/demo_util.py")
    open(d + "/demo.py", "w").write('"""%s"""\nfrom demo_util import *\n\n' % breaks + demo.strip() + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    # lines of the original repository must change
    new = set(l[:40] for l in subprocess.run(["git", "-C", "/repo", "blame", "-s", "bbd9abd..HEAD", "--", SRC], capture_output=True, text=True).stdout.splitlines() if not l.startswith("^"))
    mine = set(l.split(") ", 1)[1] if ") " in l else "" for l in subprocess.run(["git", "-C", "/repo", "blame", "-s", "bbd9abd..HEAD", "--", SRC], capture_output=True, text=True).stdout.splitlines() if not l.startswith("^"))
    rem = [l[1:] for l in open(d + "/patch.diff").read().splitlines() if l.startswith("-") and not l.startswith("---")]
    if all(l in mine for l in rem):
        print(id, "CHANGES ONLY ADDED LINES")


if __name__ == "__main__":
    want = sys.argv[1:]
    for s in S:
        if not want or s[0] in want:
            build(*s)
    print(len(S), "seeds")
