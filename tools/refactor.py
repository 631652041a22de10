"""tools/refactor.py [-k name ...] [CHECK ...]: behaviour-preserving edits of mpopt.py, all at once (or those
named), applied to a scratch copy; the tests and the checks have to stay quiet on it."""
import argparse, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EDITS = {}


def sub(name, *pairs):
    EDITS.setdefault(name, []).extend(pairs)


# other order of the constraints
sub("order_phase",
    ("G = ca.vertcat(*[F, C, DU, mU, dU, TC])", "G = ca.vertcat(*[TC, dU, mU, DU, C, F])"),
    ("Gmin = np.concatenate([Fmin, Cmin, DUmin, mUmin, dUmin, TCmin])",
     "Gmin = np.concatenate([TCmin, dUmin, mUmin, DUmin, Cmin, Fmin])"),
    ("Gmax = np.concatenate([Fmax, Cmax, DUmax, mUmax, dUmax, TCmax])",
     "Gmax = np.concatenate([TCmax, dUmax, mUmax, DUmax, Cmax, Fmax])"))
sub("order_events",
    ("            G.extend(E)\n            Gmin.extend(Emin)\n            Gmax.extend(Emax)\n",
     "            G = list(E) + G\n            Gmin = list(Emin) + Gmin\n            Gmax = list(Emax) + Gmax\n"))
# two passes over the phases
sub("two_pass", ('''            Z[phase], Zmin[phase], Zmax[phase] = self.get_nlp_variables(phase)
            G[phase], Gmin[phase], Gmax[phase], J = self.discretize_phase(phase)
            self.J += J
''', '''            Z[phase], Zmin[phase], Zmax[phase] = self.get_nlp_variables(phase)
        costs = []
        for phase in reversed(range(self._ocp.n_phases)):
            G[phase], Gmin[phase], Gmax[phase], J = self.discretize_phase(phase)
            costs.append(J)
        self.J = sum(reversed(costs))
'''))
# negated dynamics rows
sub("negated", ("F = ca.mtimes(_compD, self.X[phase][:]) - ca.vertcat(*f)[:]",
                "F = ca.vertcat(*f)[:] - ca.vec(ca.mtimes(self._compD, self.X[phase]))"))
# nested loops and a helper
sub("nested", ('''        for index in range(self._Npoints):
            if point > self.poly_orders[seg]:
                seg, point = seg + 1, 1
                t_seg0 += h_seg * (self.tau1 - self.tau0)
                h_seg = (
                    (tf - t0) / (self.tau1 - self.tau0) * self.seg_widths[seg, phase]
                )
            x = ca''', '''        nodes = [(0, 0)] + [
            (i, k + 1) for i, p in enumerate(self.poly_orders) for k in range(p)
        ]
        for index, (seg, point) in enumerate(nodes):
            h_seg = self.__rate(t0, tf, seg, phase)
            t_seg0 = t0
            for i in range(seg):
                t_seg0 = t_seg0 + self.__rate(t0, tf, i, phase) * (self.tau1 - self.tau0)
            x = ca'''), ('''            point += 1
            self.time_grid[phase][index] = t

        return (f, c, q)
''', '''            self.time_grid[phase][index] = t

        return (f, c, q)

    def __rate(self, t0, tf, seg, phase):
        return (tf - t0) * self.seg_widths[seg, phase] / (self.tau1 - self.tau0)
'''))
# matrices from closed formulas
sub("barycentric", ('''        eval_D_at = self.roots[key] if taus is None else taus
        n_i = len(eval_D_at)
''', '''        eval_D_at = self.roots[key] if taus is None else taus
        nodes = np.asarray(self.roots[key], dtype=float)
        base = [np.poly1d(np.delete(nodes, j), True) for j in range(len(nodes))]
        if len(nodes) < 15:
            out = ca.DM.zeros((len(eval_D_at), len(nodes)))
            for j, b in enumerate(base):
                scale = np.prod(nodes[j] - np.delete(nodes, j))
                others = np.delete(nodes, j)
                for i, s in enumerate(np.ravel(eval_D_at)):
                    tot = 0.0
                    for k in range(len(others)):
                        rest = np.delete(others, k)
                        if order == 1:
                            tot += np.prod(s - rest)
                        else:
                            tot += sum(np.prod(s - np.delete(rest, l)) for l in range(len(rest)))
                    out[i, j] = tot / scale
            return out
        n_i = len(eval_D_at)
'''), ('''        C = ca.DM.zeros((n_i, n_j))
        for j, p in enumerate(self.polys[degree]):
''', '''        C = ca.DM.zeros((n_i, n_j))
        nodes = np.asarray(self.roots[degree], dtype=float)
        if n_j < 20 and n_i:
            s = np.ravel(np.asarray(taus, dtype=float))[:, None]
            for j in range(n_j):
                o = np.delete(nodes, j)
                C[:, j] = np.prod((s - o) / (nodes[j] - o), axis=1)
            return C
        for j, p in enumerate(self.polys[degree]):
'''), ('''        quad_weights = ca.DM.zeros(n)
''', '''        quad_weights = ca.DM.zeros(n)
        gx, gw = np.polynomial.legendre.leggauss(n // 2 + 1)
        gx = tau0 + (tau1 - tau0) * (gx + 1) / 2
        if n < 15:
            for i in range(n):
                o = np.delete(np.asarray(self.roots[key], dtype=float), i)
                v = np.prod((gx[:, None] - o) / (self.roots[key][i] - o), axis=1)
                quad_weights[i] = (gw * v).sum() * (tau1 - tau0) / 2
            return quad_weights
'''))
sub("roots", ('''                roots = scipy.special.j_roots(deg - 1, 1.0, 1.0)[0]
''', '''                roots = np.sort(
                    np.polynomial.legendre.Legendre.basis(deg).deriv().roots().real
                )
'''), ('''            roots = np.array([np.cos(np.pi * j / (deg)) for j in range(deg + 1)])[::-1]
''', '''            roots = -np.cos(np.pi * np.arange(deg + 1) / deg)
'''))
# events link by link
sub("events", ('''        E[0] = ca.vertcat(
            *[
                (self.X[phase_j][0, :] - self.X[phase_i][-1, :]).T
                for phase_i, phase_j in self._ocp.phase_links
            ]
        )[:]
''', '''        rows = []
        for first, second in self._ocp.phase_links:
            for k in range(self._ocp.nx):
                rows.append(self.X[second][0, k] - self.X[first][-1, k])
        E[0] = ca.vertcat(*rows)
'''), ('''                self.t0[phase_j] - self.tf[phase_i]
''', '''                -(self.tf[phase_i] - self.t0[phase_j])
'''))
# solver called through a helper, all inputs in one dictionary
sub("call", ('''        solution = self.nlp_solver(**solver_inputs, **self.nlp_bounds)

        end_time = time.monotonic()

        if not self._MUTE_:
            print(" Optimal cost (J): ", solution["f"], "\\n")
            print(f" Solved in {round((end_time - start_time)*1e3, 3)} ms")

            print(
                f" \\t OCP transcription time  : {round((end_time_ocp - start_time)*1e3, 3)} ms"
            )
            print(
                f" \\t NLP solution time       : {round((end_time - end_time_ocp)*1e3, 3)} ms"
            )
            # print(f"\\n *********** End ********** \\n")

        return solution

    def get_solver_warm''', '''        inputs = dict(self.nlp_bounds)
        inputs.update(solver_inputs)
        solution = self.nlp_solver.call(inputs)
        if not self._MUTE_:
            print("cost", solution["f"])

        return solution

    def get_solver_warm'''))
# guess by outer products
sub("guess", ('''                [
                    x00 + (xf0 - x00) * s
                    for s in np.linspace(0.0, 1.0, self._Npoints)
                ]
            ).T
        )
''', '''                [
                    x00 * (1 - i / (self._Npoints - 1)) + xf0 * (i / (self._Npoints - 1))
                    for i in range(self._Npoints)
                ]
            ).T
        )
'''))
sub("names", (r"re:\b_compD\b", "_D_all"), (r"re:\b_compW\b", "_w_all"),
    (r"re:\btime_grid\b(?=\[)", "_node_times"), (r"re:self\.time_grid =", "self._node_times ="),
    (r"re:\bnlp_bounds\b", "_limits_of_nlp"))
sub("plot", ('''        for i in range(nx):
            state_index = i + 1 if legend_index is None else legend_index[i]
''', '''        order = list(range(nx))
        for i in order:
            state_index = legend_index[i] if legend_index is not None else i + 1
'''), ('''            if self.residuals is not None:
                fig = plt.figure()
                ax0 = plt.subplot(2, 2, 1)
                ax1 = plt.subplot(2, 2, 3)
                axs = [ax0, ax1]
''', '''            if self.residuals is not None:
                fig = plt.figure(figsize=(8, 6))
                ax0 = fig.add_subplot(2, 2, 1)
                ax1 = fig.add_subplot(2, 2, 3)
                axs = [ax0, ax1]
'''))
sub("original", ('''        x, u, t, a = self.get_trajectories(phases[0])
        if len(phases) > 1:
            for phase in phases[1:]:
                xp, up, tp, ap = self.get_trajectories(phase)
                x = np.vstack((x, xp))
                u = np.vstack((u, up))
                t = np.vstack((t, tp))
                a = np.vstack((a, ap))

        return (x, u, t, a)
''', '''        parts = [self.get_trajectories(phase) for phase in phases]

        return tuple(np.concatenate(part, axis=0) for part in zip(*parts))
'''))
sub("points", ("_INTERPOLATION_NODES_PER_SEG = 50", "_INTERPOLATION_NODES_PER_SEG = 40"))


# a second set, applied with -k second
FIRST_SET = list(EDITS)
sub("functions",
    ("        dynamics = self._ocp.get_dynamics(phase)\n        path_constraints = self._ocp.get_path_constraints(phase)\n        running_costs = self._ocp.get_running_costs(phase)\n",
     '''        dynamics = self._as_function(self._ocp.get_dynamics(phase))
        path_constraints = self._as_function(self._ocp.get_path_constraints(phase))
        running_costs = self._as_function(self._ocp.get_running_costs(phase), False)
'''),
    ("    def get_discretized_dynamics_constraints_and_cost_matrices(\n", '''    def _as_function(self, fn, vector=True):
        z = [
            ca.SX.sym("v", n)
            for n in (self._ocp.nx, self._ocp.nu, 1, self._ocp.na)
        ]
        out = fn(*z)
        if out is None:
            return fn
        out = ca.vertcat(*out) if vector else ca.SX(ca.vertcat(out))
        func = ca.Function("fn", z, [out])
        return (lambda *v: [func(*v)]) if vector else (lambda *v: func(*v))

    def get_discretized_dynamics_constraints_and_cost_matrices(
'''))


sub("shared_nodes", ("                h_cost = (w_end * h_seg + w_start * h_next) / (w_end + w_start)\n            q[index] = h_cost * ca.vertcat(running_costs(x, u, t, a)).T\n",
    '''                q[index] = (
                    w_end / (w_end + w_start) * h_seg * ca.vertcat(running_costs(x, u, t, a)).T
                    + w_start / (w_end + w_start) * h_next * ca.vertcat(running_costs(x, u, t, a)).T
                )
            else:
                q[index] = h_cost * ca.vertcat(running_costs(x, u, t, a)).T
'''))
SECOND = [k for k in EDITS if k not in FIRST_SET]

# a third set, applied with -k third: adaptive classes, residuals, post-processing
DONE = list(EDITS)
sub("points_by_index", ('''            # Starting node (0) won't be part of interpolation
            interp_taus[i] = nodes_req_scaled[nodes_req_scaled > cumulative_sw[i]]
            # Terminal state is included
            interp_taus[i] = interp_taus[i][interp_taus[i] <= cumulative_sw[i + 1]]
            # Normalize the taus to 1 by dividing with segment width
            interp_taus[i] = (interp_taus[i] - cumulative_sw[i]) / seg
''', '''            inside = np.logical_and(
                nodes_req_scaled > cumulative_sw[i], nodes_req_scaled <= cumulative_sw[i + 1]
            )
            interp_taus[i] = (nodes_req_scaled[inside] - cumulative_sw[i]) / seg
'''))
sub("relative", ('''                max_val = np.zeros(self._ocp.nx)
                for seg, res_seg in enumerate(x_int[phase]):
                    if res_seg is not None:
                        seg_max = abs(np.array(res_seg)).max(axis=0)
                        for id, val in enumerate(max_val):
                            max_val[id] = (
                                max_val[id]
                                if max_val[id] > seg_max[id]
                                else seg_max[id]
                            )
                # Residual of a state with zero magnitude can not be scaled
                max_val[max_val == 0] = 1.0
                for seg, res_seg in enumerate(residuals[phase]):
                    if res_seg is not None:
                        residuals[phase][seg] = np.array(res_seg) / max_val
                        # assert abs(residuals[phase][seg]).max() <= 1
''', '''                residuals[phase] = self._scaled_by(residuals[phase], x_int[phase])
'''), ('''                max_val = np.zeros(self._ocp.nx)
                for seg, res_seg in enumerate(dyn_phase):
                    if res_seg is not None:
                        seg_max = abs(np.array(res_seg)).max(axis=0)
                        for id, val in enumerate(max_val):
                            max_val[id] = (
                                max_val[id]
                                if max_val[id] > seg_max[id]
                                else seg_max[id]
                            )
                # Residual of a state with zero magnitude can not be scaled
                max_val[max_val == 0] = 1.0
                for seg, res_seg in enumerate(residuals[phase]):
                    if res_seg is not None:
                        residuals[phase][seg] = np.array(res_seg) / max_val
''', '''                residuals[phase] = self._scaled_by(residuals[phase], dyn_phase)
'''), ('''    def get_residual_grid_taus(self, phase''', '''    @staticmethod
    def _scaled_by(residuals, values):
        values = [np.abs(np.asarray(v)) for v in values if v is not None]
        if not values:
            return residuals
        magnitude = np.concatenate(values, axis=0).max(axis=0)
        magnitude = np.where(magnitude == 0, 1.0, magnitude)
        return [None if r is None else np.asarray(r) / magnitude for r in residuals]

    def get_residual_grid_taus(self, phase'''))
sub("numpy_points", ('''                f[i] = dynamics(
                    xi[index, :].T / self._ocp.scale_x,
                    ui[index, :].T / self._ocp.scale_u,
                    ti[index],
                    a / self._ocp.scale_a,
                )
                f[i] = ca.DM(f[i])
                t[i] = ti[index]

                index += 1
''', '''                f[i] = self._rates(phase, xi[index, :], ui[index, :], ti[index], a)
                t[i] = ti[index]

                index += 1
'''), ('''                f[i] = dynamics(
                    xi[index, :].T / self._ocp.scale_x,
                    ui[index, :].T / self._ocp.scale_u,
                    ti[index],
                    a / self._ocp.scale_a,
                )
                f[i] = ca.DM(f[i])
                t[i] = ti[index]
                u_seg''', '''                f[i] = self._rates(phase, xi[index, :], ui[index, :], ti[index], a)
                t[i] = ti[index]
                u_seg'''), ('''    def get_residual_grid_taus(self, phase''', '''    def _rates(self, phase, x, u, t, a):
        key = "rates"
        args = [ca.SX.sym("v", n) for n in (self._ocp.nx, self._ocp.nu, 1, self._ocp.na)]
        fn = ca.Function(key, args, [ca.vertcat(*self._ocp.get_dynamics(phase)(*args))])
        return fn(x.T / self._ocp.scale_x, u.T / self._ocp.scale_u, t, a / self._ocp.scale_a)

    def get_residual_grid_taus(self, phase'''))
sub("merge_loop", ('''        data = [(max_residuals[seg], seg) for seg in range(ns)]
        groups = [
            [(key, g[1]) for g in group]
            for key, group in itertools.groupby(data, lambda x: x[0] < ERR_TOL)
        ]
''', '''        groups = []
        for seg in range(ns):
            good = max_residuals[seg] < ERR_TOL
            if groups and groups[-1][0][0] == good:
                groups[-1].append((good, seg))
            else:
                groups.append([(good, seg)])
'''))
sub("area", ('''        areas = [0.5 * (residuals[i] + residuals[i + 1]) for i in range(n_points - 1)]
        cumulative_area = np.append(0, np.cumsum(areas))
''', '''        residuals = np.asarray(residuals, dtype=float)
        cumulative_area = np.zeros(n_points)
        for i in range(1, n_points):
            cumulative_area[i] = cumulative_area[i - 1] + 0.5 * (residuals[i] + residuals[i - 1])
'''))
sub("slope", ('''        t_du = [i for i in zip(t_orig[1:-1], du_max[1:-1]) if i[1] >= threshold]
        t_du.sort(key=lambda t: t[1], reverse=True)
        if len(t_du) > 0:
            times = np.array(t_du)[:, 0]
        else:
            times = np.array([])
''', '''        t_orig, du_max = np.asarray(t_orig)[1:-1], du_max[1:-1]
        order = np.argsort(-du_max, kind="stable")
        times = t_orig[order][du_max[order] >= threshold]
'''), ('''                for i, seg in enumerate(segment_widths[phase]):
                    if seg < self.lbh[phase]:
                        segment_widths[phase][i] = self.lbh[phase]
                    if seg > self.ubh[phase]:
                        segment_widths[phase][i] = self.ubh[phase]
''', '''                segment_widths[phase] = np.clip(
                    segment_widths[phase], self.lbh[phase], self.ubh[phase]
                )
'''))
sub("h_solve", ('''                    if self.iter_count > 4:
                        mean_error = np.mean(list(self.iter_info.values())[-4:])
                        if abs(max_error - mean_error) < 0.05 * abs(max_error):
                            print(
                                "Stopping the iterations: Change in max error is < 5%"
                            )
                            self._nlp_sw_params = sw_old
                            break
''', '''                    if self._stagnates(max_error):
                        self._nlp_sw_params = sw_old
                        break
'''), ('''                    sw_percentage_change = np.array(
                        [
                            abs(self._nlp_sw_params[i] - sw_old[i])
                            / self._nlp_sw_params[i]
                            <= self._TOL_SEG_WIDTH_CHANGE
                            for i in range(len(self._nlp_sw_params))
                        ]
                    )
                    if sw_percentage_change.all():
''', '''                    new, old = np.asarray(self._nlp_sw_params), np.asarray(sw_old)
                    if not np.any(np.abs(new - old) / new > self._TOL_SEG_WIDTH_CHANGE):
'''), ('''                solution = self.nlp_solver(**solver_inputs, **self.nlp_bounds)

                # Store the solution in intial_solution
''', '''                solution = self.nlp_solver.call(dict(self.nlp_bounds, **solver_inputs))

                # Store the solution in intial_solution
'''), ('''    def compute_seg_width_based_on_residuals(
''', '''    def _stagnates(self, max_error):
        if self.iter_count <= 4:
            return False
        last = [self.iter_info[k] for k in sorted(self.iter_info)][-4:]
        return abs(max_error - sum(last) / len(last)) < 0.05 * abs(max_error)

    def compute_seg_width_based_on_residuals(
'''))
sub("interpolated", ('''        # Get original solution from the solution
        x_orig, u_orig, t_orig, a = self.get_original_data([phases[0]])

        # Interpolate the original solution using the composite matrix
        x, u = np.dot(compI, x_orig), np.dot(compI, u_orig)

        # Get the time corresponding to the interpolated data
        t = self.get_interpolated_time_grid(
            t_orig, taus, poly_orders, self.tau0, self.tau1
        )

        if len(phases) > 1:
            # Repeat the interpolation procedure across remaining phases
            # All phases are assumed to be having same composite matrix (as of now)
            for phase in phases[1:]:
                x_orig, u_orig, t_orig, ap = self.get_original_data([phase])
                xp, up = np.dot(compI, x_orig), np.dot(compI, u_orig)
                tp = self.get_interpolated_time_grid(
                    t_orig, taus, poly_orders, self.tau0, self.tau1
                )
                x = np.vstack((x, xp))
                u = np.vstack((u, up))
                t = np.hstack((t, tp))
                a = np.hstack((a, ap))

        return (x, u, t, a)
''', '''        compI = np.asarray(ca.DM(compI).full())
        parts = []
        for phase in phases:
            x, u, t, a = self.get_trajectories(phase)
            t = self.get_interpolated_time_grid(t, taus, poly_orders, self.tau0, self.tau1)
            parts.append((compI @ x, compI @ u, t, a))
        x, u, t, a = zip(*parts)

        return (np.vstack(x), np.vstack(u), np.hstack(t), np.hstack(a))
'''))
sub("super", ('''        z0[2], z0[3], z0[4] = t00, tf0, a0
        z0[5] = [1.0 / self.n_segments] * self.n_segments

        return np.concatenate(z0)
''', '''        z0[2:5] = [t00, tf0, a0]
        z0[5] = np.full(self.n_segments, 1.0 / self.n_segments)

        return np.concatenate(z0)
'''), ('''        G = ca.vertcat(*[F, C, DU, dU, TC, SW])
        Gmin = np.concatenate([Fmin, Cmin, DUmin, dUmin, TCmin, SWmin])
        Gmax = np.concatenate([Fmax, Cmax, DUmax, dUmax, TCmax, SWmax])
''', '''        rows = [
            (SW, SWmin, SWmax), (F, Fmin, Fmax), (C, Cmin, Cmax),
            (DU, DUmin, DUmax), (dU, dUmin, dUmax), (TC, TCmin, TCmax),
        ]
        G = ca.vertcat(*[r[0] for r in rows])
        Gmin, Gmax = (np.concatenate([r[i] for r in rows]) for i in (1, 2))
'''), ('''        sw_fn = ca.Function("sw", [self.Z], [self.seg_widths[:]], ["z"], ["h"])
        self._nlp_sw_params = np.concatenate(sw_fn(solution["x"]).full())
''', '''        self._nlp_sw_params = np.ravel(
            ca.Function("sw", [self.Z], [ca.vec(self.seg_widths)])(solution["x"]).full()
        )
'''))
sub("ph", ('''                    poly_orders = [
                        max(poly_orders[i], self.poly_orders[i] + 3 * int(st))
                        for i, st in enumerate(status)
                    ]
''', '''                    poly_orders = list(poly_orders)
                    for i in np.flatnonzero(status):
                        poly_orders[i] = self.poly_orders[i] + 3
'''), ('''            poly_orders = [
                [self.poly_orders[i_seg]] * n for i_seg, n in enumerate(new_segments)
            ]
            nlp_sw_params = [
                [self._nlp_sw_params[self.n_segments * phase + i_seg] / n] * n
                for phase in range(self._ocp.n_phases)
                for i_seg, n in enumerate(new_segments)
            ]
''', '''            poly_orders = [np.repeat(self.poly_orders, new_segments)]
            old = np.reshape(self._nlp_sw_params, (self._ocp.n_phases, self.n_segments))
            nlp_sw_params = [
                np.repeat(w / np.array(new_segments), new_segments) for w in old
            ]
'''))
sub("warm", ('''            for key in solution:
                if key in key_target_pair:
                    solver_inputs[key_target_pair[key]] = solution[key]
''', '''            solver_inputs.update(
                {
                    key_target_pair[key]: value
                    for key, value in solution.items()
                    if key in key_target_pair
                }
            )
'''), ('''        for key in options:
            default_options[key] = options[key]

        # Create NLP solver object -> costly operation
''', '''        default_options = {**default_options, **options}

'''))
sub("scaled_default", ('''            scale_x = self.options["scale_x"] if "scale_x" in self.options else 1.0
            scale_u = self.options["scale_u"] if "scale_u" in self.options else 1.0
            scale_a = self.options["scale_a"] if "scale_a" in self.options else 1.0
''', '''            scale_x, scale_u, scale_a = (
                self.options.get("scale_" + k, 1.0) for k in "xua"
            )
'''))
THIRD = [k for k in EDITS if k not in DONE]


def apply(txt, names):
    for n in names:
        for old, new in EDITS[n]:
            if old.startswith("re:"):
                assert re.search(old[3:], txt), (n, old)
                txt = re.sub(old[3:], new, txt)
            else:
                assert txt.count(old) >= 1, (n, old[:80], txt.count(old))
                txt = txt.replace(old, new)
    return txt


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-k", nargs="*")
    ap.add_argument("-x", nargs="*", default=[])
    ap.add_argument("--frac", default="0.5")
    ap.add_argument("--seed", default="1")
    ap.add_argument("-c", nargs="*")
    a = ap.parse_args()
    names = [k for k in ({"second": SECOND, "third": THIRD}.get(" ".join(a.k or []), a.k) or FIRST_SET) if k not in a.x]
    d = tempfile.mkdtemp(prefix="refac_", dir="/tmp")
    try:
        for k in ("mpopt", "tests", "examples"):
            shutil.copytree("/repo/" + k, d + "/" + k, ignore=shutil.ignore_patterns("__pycache__"))
        f = d + "/mpopt/mpopt.py"
        txt = apply(open(f).read(), names)
        open(f, "w").write(txt)
        os.makedirs(d + "/out/evidence"); os.makedirs(d + "/out/replay")
        env = dict(os.environ, VMON_REPO=d, VMON_OUT=d + "/out", PYTHONPATH=d, MPLBACKEND="Agg", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", VERIF_SEED=a.seed, VMON_FRAC=a.frac)
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=d, env=env,
                           capture_output=True, text=True)
        print("tests:", r.stdout.strip().splitlines()[-8:], flush=True)
        for c in a.c or ["C%02d" % i for i in range(1, 33)]:
            r = subprocess.run([V + "/run", c], env=env, capture_output=True, text=True)
            print(c, r.returncode, "" if r.returncode == 0 else "\n".join(r.stdout.strip().splitlines()[-6:])[:1500], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main()
