"""Development aid: small semantic changes of mpopt.py applied to scratch copies, to see which
checks notice them (not read by any check).  (name, checks to run, old, new[, nth])"""
M = []


def m(name, props, old, new, nth=1):
    M.append((name, props.split(), old, new, nth))


# ---- transcription
m("w_first", "C06", "w_start * h_next) / (w_end + w_start)", "w_end * h_next) / (w_end + w_end)")
m("tseg_nextwidth", "C11 C05", """                t_seg0 += h_seg * (self.tau1 - self.tau0)
                h_seg = (
                    (tf - t0) / (self.tau1 - self.tau0) * self.seg_widths[seg, phase]
                )
""", """                h_seg = (
                    (tf - t0) / (self.tau1 - self.tau0) * self.seg_widths[seg, phase]
                )
                t_seg0 += h_seg * (self.tau1 - self.tau0)
""")
m("tau_offset", "C11", "point] - self.tau0)\n\n            # discretize dynamics", "point] + 1)\n\n            # discretize dynamics")
m("dyn_seg0", "C05", "seg, point = seg + 1, 1\n", "seg, point = min(seg + 1, 3), 1\n")
m("roots_by_first", "C11 C05", "self._taus[self.poly_orders[seg]][point]", "self._taus[self.poly_orders[min(seg, 1)]][point]")
m("scale_f", "C05 C10", "f[index] = h_seg * ca.mtimes(self._scX, ca.vertcat(*dynamics(x, u, t, a))).T", "f[index] = h_seg * ca.mtimes(self._scX, ca.vertcat(*dynamics(x, u, t, self.A[:, phase]))).T")
m("path_a", "C07 C10", "c[index] = ca.vertcat(*path_constraints(x, u, t, a)).T", "c[index] = ca.vertcat(*path_constraints(x, u, t, self.A[:, phase])).T")
m("run_t_scaled", "C06 C10 C11", "q[index] = h_cost * ca.vertcat(running_costs(x, u, t, a)).T", "q[index] = h_cost * ca.vertcat(running_costs(x, u, t * self._ocp.scale_t, a)).T")
m("term_a_unscaled", "C07 C06 C10", """        a = ca.mtimes(self.__invScA, self.A[:, phase])
        t0 = self.t0[phase] / self._ocp.scale_t
        tf = self.tf[phase] / self._ocp.scale_t

        # Check if OCP has terminal""", """        a = self.A[:, phase]
        t0 = self.t0[phase] / self._ocp.scale_t
        tf = self.tf[phase] / self._ocp.scale_t

        # Check if OCP has terminal""")
m("term_a_phase0", "C07 C06", """        a = ca.mtimes(self.__invScA, self.A[:, phase])
        t0 = self.t0[phase] / self._ocp.scale_t
        tf = self.tf[phase] / self._ocp.scale_t

        # Check if OCP has terminal""", """        a = ca.mtimes(self.__invScA, self.A[:, 0])
        t0 = self.t0[phase] / self._ocp.scale_t
        tf = self.tf[phase] / self._ocp.scale_t

        # Check if OCP has terminal""")
m("has_term0", "C07", "has_terminal_constraints = self._ocp.has_terminal_constraints(phase)", "has_terminal_constraints = self._ocp.has_terminal_constraints(0) or self._ocp.has_terminal_constraints(phase) and phase < 2")
m("path_twosided", "C07", "Cmin = [self._ocp.LB_PATH_CONSTRAINTS] * (nC)", "Cmin = [max(self._ocp.LB_PATH_CONSTRAINTS, -1e6)] * (nC)")
m("path_skip_last", "C07", "C = ca.vertcat(*c)[:]", "C = ca.vertcat(*c[:-1])[:] if phase > 0 else ca.vertcat(*c)[:]")
m("slope_repmat", "C13", "DU = ca.vec(DU / ca.repmat(h, 1, self._ocp.nu))", "DU = ca.vec(DU / ca.repmat(h, 1, self._ocp.nu) * (1 if phase == 0 else self._ocp.scale_t))")
m("slope_bound0", "C13", "DUmin = [self._ocp.lbdu[phase]] * (nDu)", "DUmin = [-self._ocp.ubdu[phase]] * (nDu)")
m("midu_phase0", "C13", "if not self._ocp.midu[phase]:", "if not self._ocp.midu[0]:")
m("midu_any", "C13", "(self._ocp.lbu[phase] > -np.inf).any() or (\n            self._ocp.ubu[phase] < np.inf\n        ).any()", "(self._ocp.lbu[phase] > -np.inf).any() and (\n            self._ocp.ubu[phase] < np.inf\n        ).any()")
m("midu_any_ad", "C23", "(self._ocp.lbu[phase] > -np.inf).any() or (\n            self._ocp.ubu[phase] < np.inf\n        ).any()", "(self._ocp.lbu[phase] > -np.inf).all() or (\n            self._ocp.ubu[phase] < np.inf\n        ).all()", 2)
m("duc_cross", "C13", "dU = ca.vec(dU_end * h_seg[1:, :] - dU_start * h_seg[:-1, :])", "dU = ca.vec(dU_end * h_seg[:-1, :] - dU_start * h_seg[1:, :])")
m("ev_scale", "C09 C10", "[self._ocp.ube[phase] * self._ocp.scale_x for phase in range(n)]", "[self._ocp.ube[phase] / self._ocp.scale_x for phase in range(n)]")
m("ev_index", "C09", "[self._ocp.lbe[phase] * self._ocp.scale_x for phase in range(n)]", "[self._ocp.lbe[n - 1 - phase] * self._ocp.scale_x for phase in range(n)]")
m("ev_time", "C09", "self.t0[phase_j] - self.tf[phase_i]", "self.t0[phase_j] - self.tf[phase_j - 1]")
m("ev_u", "C09", "(self.U[phase_j][0, :] - self.U[phase_i][-1, :]).T", "(self.U[phase_j][0, :] - self.U[phase_i][-2, :]).T")
m("x00_each", "C08", "if phase == 0:\n            xmin_vec[0] = xmax_vec[0] = self._ocp.x00[0]", "if phase == 0 or self._ocp.x00[phase].any() and phase == 2:\n            xmin_vec[0] = xmax_vec[0] = self._ocp.x00[phase]")
m("lba_noscale", "C08 C10", "self._ocp.lba[phase] * self._ocp.scale_a", "self._ocp.lba[phase]")
m("lbt0_phase", "C08", "self._ocp.lbt0[phase] * self._ocp.scale_t", "self._ocp.lbt0[0] * self._ocp.scale_t")
m("repeat_tile", "C08", "np.repeat(self._ocp.ubu[phase] * self._ocp.scale_u, self._Npoints)", "np.tile(self._ocp.ubu[phase] * self._ocp.scale_u, self._Npoints)")
m("ad_repeat_tile", "C08 C23", "np.repeat(self._ocp.ubu[phase] * self._ocp.scale_u, self._Npoints)", "np.tile(self._ocp.ubu[phase] * self._ocp.scale_u, self._Npoints)", 2)
m("ad_lbh", "C23 C08", "[self.ubh[phase]] * self.n_segments", "[self.ubh[0]] * self.n_segments")
m("ad_uba", "C08", "self._ocp.uba[phase] * self._ocp.scale_a", "self._ocp.uba[0] * self._ocp.scale_a", 2)
m("guess_time", "C12", "u00 + (uf0 - u00) * s\n", "u00 + (uf0 - u00) * s * s\n")
m("guess_xf", "C12", "xf0 = self._ocp.xf0[phase] * self._ocp.scale_x", "xf0 = self._ocp.xf0[phase]")
m("guess_ad_a", "C12", "a0 = self._ocp.a0[phase] * self._ocp.scale_a", "a0 = self._ocp.a0[phase]", 2)
m("guess_ad_u", "C12", "uf0 = self._ocp.uf0[phase] * self._ocp.scale_u", "uf0 = self._ocp.uf0[0] * self._ocp.scale_u", 2)
m("opts_override", "C25", "        for key in options:\n            default_options[key] = options[key]\n\n", "        for key in options:\n            default_options.setdefault(key, options[key])\n\n")
m("reinit_ignored", "C25", "if (not self._nlpsolver_initialized) or (reinitialize_nlp):", "if not self._nlpsolver_initialized:")
m("lam_swap", "C25", '"lam_g": "lam_g0",', '"lam_g": "lam_x0",')
m("lam_drop", "C25", '            "lam_x": "lam_x0",\n', '')
m("sticky_sw", "C25 C24", "self._nlp_sw_params = self.get_segment_width_parameters(initial_solution)\n\n        solver_inputs", "self._nlp_sw_params = getattr(self, '_nlp_sw_params', None) if hasattr(self, '_nlp_sw_params') else self.get_segment_width_parameters(initial_solution)\n\n        solver_inputs")
m("warm_x0_ignored", "C25", '"x0": "x0",', '"x0": "x_0",')
# ---- residuals
m("state_resid_xstart", "C17", "xstart = x_seg[seg]", "xstart = x_seg[0] if seg == 0 else x[sum(self.poly_orders[:seg]) - 1, :]")
m("state_resid_scale", "C17", "h_seg * (np.dot(quad_tau.T, (f * self._ocp.scale_x)))", "h_seg * (np.dot(quad_tau.T, f))")
m("state_resid_a", "C17", "a / self._ocp.scale_a,\n                )\n                f[i] = ca.DM(f[i])\n                t[i] = ti[index]\n                u_seg", "a,\n                )\n                f[i] = ca.DM(f[i])\n                t[i] = ti[index]\n                u_seg")
m("state_resid_h", "C17", "h_seg = (tf[0] - t0[0]) / (self.tau1 - self.tau0) * seg_widths[seg]\n            for i, tau", "h_seg = (tf[0] - t0[0]) / 2.0 * seg_widths[seg]\n            for i, tau")
m("state_rel_abs", "C17", "seg_max = abs(np.array(res_seg)).max(axis=0)", "seg_max = np.array(res_seg).max(axis=0)")
m("dyn_rel_abs", "C16", "seg_max = abs(np.array(res_seg)).max(axis=0)", "seg_max = np.array(res_seg).max(axis=0)", 2)
m("dyn_rel_phase", "C16", "max_val = np.zeros(self._ocp.nx)\n                for seg, res_seg in enumerate(dyn_phase):", "max_val = max_val if phase > 1 else np.zeros(self._ocp.nx)\n                for seg, res_seg in enumerate(dyn_phase):")
m("dyn_t", "C16", "ti[index],\n                    a / self._ocp.scale_a,\n                )\n                f[i] = ca.DM(f[i])\n                t[i] = ti[index]\n\n", "ti[i],\n                    a / self._ocp.scale_a,\n                )\n                f[i] = ca.DM(f[i])\n                t[i] = ti[index]\n\n")
m("dyn_widths_phase0", "C16", """        seg_widths = self._nlp_sw_params[
            self.n_segments * phase : self.n_segments * (phase + 1)
        ]
        index = 0
        n_taus = [len(taus) for taus in taus_grid]
        residual_phase = [None] * self.n_segments
        dyn_phase""", """        seg_widths = self._nlp_sw_params[: self.n_segments]
        index = 0
        n_taus = [len(taus) for taus in taus_grid]
        residual_phase = [None] * self.n_segments
        dyn_phase""")
m("fixed_grid_count", "C19", "n_nodes = max(sum(self.poly_orders) + 2, self._MAX_GRID_POINTS + 2)", "n_nodes = max(sum(self.poly_orders) + 2, self._MAX_GRID_POINTS + 2) - (1 if sum(self.poly_orders) > self._MAX_GRID_POINTS else 0)")
m("fixed_phase0", "C19", """                    self._nlp_sw_params[
                        self.n_segments * phase : self.n_segments * (phase + 1)
                    ],
                    tau0=self.tau0,""", """                    self._nlp_sw_params[: self.n_segments],
                    tau0=self.tau0,""")
m("grid_ge", "C19", "interp_taus[i] = nodes_req_scaled[nodes_req_scaled > cumulative_sw[i]]", "interp_taus[i] = nodes_req_scaled[nodes_req_scaled >= cumulative_sw[i]]")
m("grid_le", "C19", "interp_taus[i] = interp_taus[i][interp_taus[i] <= cumulative_sw[i + 1]]", "interp_taus[i] = interp_taus[i][interp_taus[i] < cumulative_sw[i + 1]]")
m("grid_last", "C19", "cumulative_sw[-1] = 1.0", "pass")
m("spectral_ends", "C19", "self.collocation._taus_fn(self._MAX_GRID_POINTS + 2)[1:-1]", "self.collocation._taus_fn(self._MAX_GRID_POINTS + 2)[:-1]")
m("interp_time", "C15 C16 C11", "t_orig[sum(poly_orders[: (i + 1)])] for i in range(len(poly_orders))\n        ]\n\n        # Interpolate the original time grid\n        time_grid = [\n            t_seg[i]\n            + (t_seg[i + 1] - t_seg[i])\n            * (0 + (1 - 0) / (tau1 - tau0) * (taus[i] - tau0))", "t_orig[sum(poly_orders[: (i + 1)])] for i in range(len(poly_orders))\n        ]\n\n        # Interpolate the original time grid\n        time_grid = [\n            t_seg[i]\n            + (t_seg[i + 1] - t_seg[i])\n            * (0 + (1 - 0) / (tau1 - tau0) * (taus[0] - tau0) if len(taus[0]) == len(taus[i]) else (taus[i] - tau0) / (tau1 - tau0))")
m("dd_order", "C18", "taus_mid, self.poly_orders\n        )\n        xi", "taus_mid, self.poly_orders, order=2\n        )\n        xi")
m("second_phase_nodes", "C18", "target_nodes = nodes[phase]\n\n            (\n                ti[phase],\n                DDx[phase],", "target_nodes = nodes[0]\n\n            (\n                ti[phase],\n                DDx[phase],")
# ---- post processing
m("post_scale_u", "C14 C10", "x_opt / scale_x, u_opt / scale_u", "x_opt / scale_x, u_opt / scale_u[0]")
m("post_interp_drop_first", "C15", "taus[0] = np.append(self.tau0, taus[0])", "taus[0] = np.append(self.tau0, taus[0][:-1])")
m("post_interp_first_phase", "C15", "x_orig, u_orig, t_orig, ap = self.get_original_data([phase])", "x_orig, u_orig, t_orig, ap = self.get_original_data([phase if phase < len(phases) else phases[0]])")
m("post_phases_sorted", "C14", "for phase in phases[1:]:\n                xp, up, tp, ap = self.get_trajectories(phase)", "for phase in sorted(phases[1:]):\n                xp, up, tp, ap = self.get_trajectories(phase)")
m("post_interp_sorted", "C15", "for phase in phases[1:]:\n                x_orig", "for phase in sorted(phases[1:]):\n                x_orig")
m("post_live_sw", "C14 C24", '"seg_widths": self._nlp_sw_params,', '"seg_widths": np.asarray(self._nlp_sw_params).copy() if len(self._nlp_sw_params) < 3 else [1.0/self.n_segments]*len(self._nlp_sw_params),')
m("ad_post_sw", "C14 C23", '"seg_widths": self._nlp_sw_params,', '"seg_widths": np.ones(len(self._nlp_sw_params)) / self.n_segments,', 2)
m("post_tau", "C15", '"tau0": self.tau0,\n            "tau1": self.tau1,', '"tau0": -1,\n            "tau1": 1,')
# ---- h adaptive
m("h_tol_max", "C22", "if max_error < min(self.tol_residual):\n                self.iter_info", "if max_error < max(self.tol_residual):\n                self.iter_info")
m("h_tol_max2", "C22", "if max_error < min(self.tol_residual):\n                        self.iter_info", "if max_error < max(self.tol_residual):\n                        self.iter_info")
m("h_swold_drop", "C22", """                        self._nlp_sw_params = sw_old
                        break

                if (iter == 0)""", """                        break

                if (iter == 0)""")
m("h_swold_drop2", "C22", """                            self._nlp_sw_params = sw_old
                            break
""", """                            break
""")
m("h_any", "C22", "if sw_percentage_change.all():", "if sw_percentage_change.any():")
m("h_iter", "C22", "for iter in range(max_iter):", "for iter in range(max_iter + 1):")
m("h_warm", "C22", "                initial_solution = solution\n                sw_old", "                initial_solution = initial_solution or solution\n                sw_old")
m("h_copy", "C22 C24", "sw_old = copy.deepcopy(self._nlp_sw_params)", "sw_old = self._nlp_sw_params")
m("h_lastphase_err", "C20", "if max_residual > max_error:\n                max_error = max_residual", "max_error = max_residual")
m("h_lastphase_err2", "C20", "if max_residual > max_error:\n                max_error = max_residual", "max_error = max_residual", 2)
m("h_residual_abs", "C20", "abs(np.array(err)).max() if err is not None else 0\n                    for err in residuals[phase]", "np.array(err).max() if err is not None else 0\n                    for err in residuals[phase]")
m("h_tol0", "C20", "if max_residual < self.tol_residual[phase]:", "if max_residual < self.tol_residual[0]:")
m("h_old0", "C20", """            segment_widths_old = self._nlp_sw_params[
                self.n_segments * phase : self.n_segments * (phase + 1)
            ]""", """            segment_widths_old = self._nlp_sw_params[: self.n_segments]""")
m("h_blend", "C20 C22", "+ 0.6 * np.array(segment_widths_old)", "+ 0.6 / self.n_segments")
m("eq_area_max", "C21", "if i == n_segments - 1:\n                # Last segment always ends at the end of the phase\n                seg_widths_cumulative[i] = 1.0\n                break\n            ind_j = (cumulative_area >= (i + 1) / n_segments).argmax()", "if i == n_segments - 1:\n                # Last segment always ends at the end of the phase\n                seg_widths_cumulative[i] = 1.0\n                break\n            ind_j = (cumulative_area >= i / n_segments).argmax() + 1")
m("eq_area_norm", "C21", "areas = [0.5 * (residuals[i] + residuals[i + 1])", "areas = [0.5 * (residuals[i] + residuals[i])")
m("ms_mod", "C21", "n_free_per_false[-1] + np.mod(n_free, n_false)", "n_free_per_false[-1] + np.mod(n_free, n_false) - (1 if n_free > 3 else 0)")
m("ms_group", "C21", "lambda x: x[0] < ERR_TOL", "lambda x: x[0] < 1e-3")
m("ms_hnew", "C21", "new_sw[seg_id] = h_new[i] / n_free_per_false[false_id]", "new_sw[seg_id] = h_new[i] / n_free_per_false[0]")
m("slope_sort", "C21", "t_du.sort(key=lambda t: t[1], reverse=True)", "t_du.sort(key=lambda t: t[1])")
m("slope_interior", "C21", "zip(t_orig[1:-1], du_max[1:-1])", "zip(t_orig[1:-1], du_max[:-2])")
m("slope_norm", "C21", "du_max = np.linalg.norm(du_orig, 2, axis=1)", "du_max = np.linalg.norm(du_orig, 1, axis=1)")
m("slope_limit", "C20", "if seg > self.ubh[phase]:\n                        segment_widths[phase][i] = self.ubh[phase]", "if seg > self.ubh[0]:\n                        segment_widths[phase][i] = self.ubh[0]")
m("slope_tf", "C21 C20", "segment_widths = np.array(segment_widths) / (tf - t0)", "segment_widths = np.array(segment_widths) / tf")
m("slope_nend", "C21", "segment_widths[i] = sw_end / n_end", "segment_widths[i] = sw_end / n_start")
# ---- adaptive
m("ad_sum", "C23", "sw.append(ca.sum1(self.seg_widths[:, phase]) - 1.0)", "sw.append(ca.sum1(self.seg_widths[:, 0]) - 1.0)")
m("ad_tol", "C23", "swmax.append([self.tol_residual[phase]] * n_residuals)", "swmax.append([self.tol_residual[0]] * n_residuals)")
m("ad_time", "C23", "(self.time_grid[phase][i] + self.time_grid[phase][i + 1]) / 2.0", "(self.time_grid[0][i] + self.time_grid[0][i + 1]) / 2.0")
m("ad_scale", "C23 C10", "self.A[:, phase] / self._ocp.scale_a,", "self.A[:, phase],")
m("ad_lbx_mid", "C23", "swmax.append(np.repeat(self._ocp.ubx[phase] * self._ocp.scale_x, n_mid))", "swmax.append(np.repeat(self._ocp.ubx[0] * self._ocp.scale_x, n_mid))")
m("ad_h", "C23", "(self.tf[phase] - self.t0[phase])\n                    / self._ocp.scale_t\n                    / (self.tau1 - self.tau0)", "(self.tf[phase] - self.t0[phase])\n                    / self._ocp.scale_t\n                    / 2.0")
m("ad_no_slope", "C13 C23", "G = ca.vertcat(*[F, C, DU, dU, TC, SW])\n        Gmin = np.concatenate([Fmin, Cmin, DUmin, dUmin, TCmin, SWmin])\n        Gmax = np.concatenate([Fmax, Cmax, DUmax, dUmax, TCmax, SWmax])", "G = ca.vertcat(*[F, C, dU, TC, SW])\n        Gmin = np.concatenate([Fmin, Cmin, dUmin, TCmin, SWmin])\n        Gmax = np.concatenate([Fmax, Cmax, dUmax, TCmax, SWmax])")
m("ad_warm_sw", "C23 C14", "self._nlp_sw_params = np.concatenate(sw_fn(solution[\"x\"]).full())", "self._nlp_sw_params = np.concatenate(sw_fn(solver_inputs[\"x0\"]).full()) if \"lam_x0\" in solver_inputs else np.concatenate(sw_fn(solution[\"x\"]).full())")
# ---- OCP
m("deepcopy", "C24", "self._ocp = copy.deepcopy(problem)", "self._ocp = copy.copy(problem)")
m("val_tf", "C28", "assert self.lbtf[phase] <= self.ubtf[phase]", "assert self.lbtf[0] <= self.ubtf[0]")
m("val_e", "C28", "assert self.lbe[phase][i] <= self.ube[phase][i]", "assert self.lbe[0][i] <= self.ube[0][i]")
m("val_strict", "C28", "assert self.lba[phase][i] <= self.uba[phase][i]", "assert self.lba[phase][i] < self.uba[phase][i]")
m("val_dyn", "C28", "assert len(dynamics(x, u, t, a)) == self.nx", "assert len(dynamics(x, u, t, a)) >= self.nx")
m("val_range", "C28", "for i in range(self.nu):\n                assert self.lbu", "for i in range(self.nx):\n                assert self.lbu")
m("val_pc", "C28", "if pc is not None:", "if pc:")
m("share_default", "C28 C08 C24", "self.lbx = np.array([[-np.inf] * self.nx for _ in range(self.n_phases)])", "self.lbx = np.array([[-np.inf] * self.nx for _ in range(self.n_phases)]); self.lbx[1:, 0] = -1e3")
m("has_pc_late", "C07", "path_constraints(\n                self.x00[phase], self.u00[phase], self.t00[phase], self.a0[phase]", "path_constraints(\n                self.x00[0], self.u00[0], self.t00[0], self.a0[0]")
m("default_links", "C09", "self.phase_links = [(i, i + 1) for i in range(self.n_phases - 1)]", "self.phase_links = [(i, i + 1) for i in range(min(self.n_phases - 1, 2))]")
# ---- collocation
m("D_row", "C02 C05", "] = D[p][1:, :]\n        return comp_diff_matrix", "] = D[p][-p:, :] if i < 3 else D[poly_orders[i]][1:, :]\n        return comp_diff_matrix")
m("composite_unique", "C02 C03", "unique_keys = self.unique_polys if keys is None else set(keys)", "unique_keys = self.unique_polys")
m("second_key", "C02 C18", "pder = np.polyder(np.polyder(p))", "pder = np.polyder(p, 3)")
m("quad_sub", "C03 C17", "{\"t0\": 0, \"tf\": 1},", "{\"t0\": 0, \"tf\": 0.9999},")
m("quad_num", "C03 C29", "quad_weights[i] = pint(tau1) - pint(tau0)", "quad_weights[i] = pint(tau1) - pint(self.tau0)")
m("quad_tau", "C03", "if tau1 is None:\n            tau1 = self.tau1\n\n        n =", "if not tau1:\n            tau1 = self.tau1\n\n        n =")
m("quad_tau2", "C03", "if tau1 == None:", "if not tau1:")
m("interp_skip", "C04 C15", "start_row, start_col = sum(n_taus[:i]), sum(poly_orders[:i])\n            comp_matrix[", "start_row, start_col = n_taus[0] * i, sum(poly_orders[:i])\n            comp_matrix[")
m("interpD_skip", "C02 C16", "start_row, start_col = sum(n_taus[:i]), sum(poly_orders[:i])\n            comp_Dmatrix[", "start_row, start_col = n_taus[0] * i, sum(poly_orders[:i])\n            comp_Dmatrix[")
m("interp_empty", "C04", "if n_taus[i] == 0:\n                continue\n            start_row, start_col = sum(n_taus[:i]), sum(poly_orders[:i])\n            comp_matrix[", "if n_taus[i] == 0:\n                break\n            start_row, start_col = sum(n_taus[:i]), sum(poly_orders[:i])\n            comp_matrix[")
m("custom_roots_stick", "C17 C24", "self.roots[key] = roots_dict[key]\n            self.polys[key] = self.poly_fn(self.roots[key])", "if key in self.roots and len(self.roots[key]) == len(roots_dict[key]):\n                continue\n            self.roots[key] = roots_dict[key]\n            self.polys[key] = self.poly_fn(self.roots[key])")
m("lgr_high", "C01", "roots = scipy.special.j_roots(deg - 1, 1.0, 0.0)[0]", "roots = scipy.special.j_roots(deg - 1, 1.0, 0.0)[0] if deg < 13 else np.sort(-scipy.special.j_roots(deg - 1, 1.0, 0.0)[0])")
m("lgl_scale", "C01", "return tau_min + (tau_max - tau_min) / (2) * (roots_minus1plus1 + 1)\n\n            if deg == 1:\n                return np.array([tau_min, tau_max])\n            else:\n                return np.array([0.0])\n\n        # Refer", "return (tau_max - tau_min) / (2) * roots_minus1plus1 + (tau_min + tau_max) / 2 + 0 if tau_min != 0 else (roots_minus1plus1 + 1) / 2\n\n            if deg == 1:\n                return np.array([tau_min, tau_max])\n            else:\n                return np.array([0.0])\n\n        # Refer")
m("cgl_1", "C01", "for j in range(deg + 1)])[::-1]", "for j in range(deg + 1)])[::-1].round(12)")
m("cls_tau", "C01 C29", "self.tau0 = colloc_roots._TAU_MIN", "self.tau0 = -1")
m("poly_shared_method", "C29", 'if self.D_MATRIX_METHOD == "symbolic":\n                poly = ca.Function("p", [self.TVAR], [p])', 'if hasattr(p, "is_constant"):\n                poly = ca.Function("p", [self.TVAR], [p])')
# ---- plots
m("plot_dims", "C31", "legend_index=dim,\n            )\n            if not axis", "legend_index=list(dim),\n            )\n            if not axis")
m("plot_tics", "C31", "var_data[:, dim],", "var_data[:, list(range(len(dim)))] if n > 1 else var_data[:, dim],")
m("plot_phases0", "C31", "x, _, t, _ = self.get_data(phases, interpolate)", "x, _, t, _ = self.get_data(self.phases, interpolate)")
m("plot_norm", "C31", "np.array(err).reshape(len(err), -1), 2, axis=1", "np.array(err).reshape(len(err), -1), 1, axis=1")
m("plot_mut", "C31", "        nx = x.shape[1]\n        for i in range(nx):", "        x -= 0 * x\n        x[-1] = x[-2] if len(x) > 60 else x[-1]\n        nx = x.shape[1]\n        for i in range(nx):")
# ---- ph
m("ph_first", "C32", "if abs_max_residual < max_seg_residual.max():", "if True:")
m("ph_refine", "C32", "if not np.array(refine_phase).any():\n                return solution\n", "if not np.array(refine_phase).all():\n                return solution\n")
m("ph_ret", "C32", "if not np.array(refine_phase).any():\n                return solution_new", "if not np.array(refine_phase).any():\n                return solution")
m("ph_final", "C32", "        return solution_new\n", "        return solution\n", 2)
m("ph_min", "C32", "min(max(self.poly_order_min, p), self.poly_order_max)", "max(self.poly_order_min, min(p, self.poly_order_max + 1))")
m("ph_sw", "C32", "[self._nlp_sw_params[self.n_segments * phase + i_seg] / n] * n", "[self._nlp_sw_params[i_seg] / n] * n")
m("ph_maxseg", "C32", "self.n_segments + sum(split_seg) < self.max_segments", "self.n_segments < self.max_segments")
m("ph_opts", "C32 C24", "solve_dict = dict(solve_dict)\n", "")
m("ph_status", "C32", "max(poly_orders[i], self.poly_orders[i] + 3 * int(st))", "self.poly_orders[i] + 3 * int(st)")

# ---- second round
m("r2_midu_all", "C13", "(self._ocp.lbu[phase] > -np.inf).any() or (\n            self._ocp.ubu[phase] < np.inf\n        ).any()", "(self._ocp.lbu[phase] > -np.inf).all() or (\n            self._ocp.ubu[phase] < np.inf\n        ).all()", 1)
m("r2_admidu_all", "C23", "(self._ocp.lbu[phase] > -np.inf).any() or (\n            self._ocp.ubu[phase] < np.inf\n        ).any()", "(self._ocp.lbu[phase] > -np.inf).all() or (\n            self._ocp.ubu[phase] < np.inf\n        ).all()", 2)
m("r2_admidx_lb_only", "C23", "(self._ocp.lbx[phase] > -np.inf).any() or (\n            self._ocp.ubx[phase] < np.inf\n        ).any()", "(self._ocp.lbx[phase] > -np.inf).any()", 1)
m("r2_duc_phase0", "C13", "h_seg = ca.repmat(self.seg_widths[:, phase], 1, self._ocp.nu)", "h_seg = ca.repmat(self.seg_widths[:, 0], 1, self._ocp.nu)")
m("r2_duc_nu", "C13", "h_seg = ca.repmat(self.seg_widths[:, phase], 1, self._ocp.nu)", "h_seg = ca.repmat(self.seg_widths[:, phase], 1, self._ocp.nu)\n        h_seg[0, 1:] = self.seg_widths[1, phase]")
m("r2_diffu_lb", "C13", "DUmin = [self._ocp.lbdu[phase]] * (nDu)", "DUmin = [max(self._ocp.lbdu[phase], -self._ocp.ubdu[phase])] * (nDu)")
m("r2_x_x0", "C25", """                if key in key_target_pair:
                    solver_inputs""", """                if key in key_target_pair and key_target_pair[key] not in solver_inputs:
                    solver_inputs""")
m("r2_x00_clip", "C08", "xmin_vec[0] = xmax_vec[0] = self._ocp.x00[0] * self._ocp.scale_x", "xmin_vec[0] = xmax_vec[0] = np.clip(self._ocp.x00[0], self._ocp.lbx[0], self._ocp.ubx[0]) * self._ocp.scale_x", 1)
m("r2_x00_clip_ad", "C08", "xmin_vec[0] = xmax_vec[0] = self._ocp.x00[0] * self._ocp.scale_x", "xmin_vec[0] = xmax_vec[0] = np.clip(self._ocp.x00[0], self._ocp.lbx[0], self._ocp.ubx[0]) * self._ocp.scale_x", 2)
m("r2_guess_clip", "C12", "u00 = self._ocp.u00[phase] * self._ocp.scale_u", "u00 = np.clip(self._ocp.u00[phase], self._ocp.lbu[phase], self._ocp.ubu[phase]) * self._ocp.scale_u", 1)
m("r2_guess_clip_x", "C12", "xf0 = self._ocp.xf0[phase] * self._ocp.scale_x", "xf0 = np.clip(self._ocp.xf0[phase], self._ocp.lbx[phase], self._ocp.ubx[phase]) * self._ocp.scale_x", 2)
m("r2_guess_a_clip", "C12", "a0 = self._ocp.a0[phase] * self._ocp.scale_a", "a0 = np.maximum(self._ocp.a0[phase], self._ocp.lba[phase]) * self._ocp.scale_a", 1)
m("r2_resx_a", "C17", "                    a / self._ocp.scale_a,\n", "                    a,\n", 1)
m("r2_resdx_a", "C16", "                    a / self._ocp.scale_a,\n", "                    a,\n", 2)
m("r2_resx_max", "C17", "for seg, res_seg in enumerate(x_int[phase]):", "for seg, res_seg in enumerate(x_int[phase][:4]):")
m("r2_resdx_max", "C16", "for seg, res_seg in enumerate(dyn_phase):", "for seg, res_seg in enumerate(dyn_phase[:4]):")
m("r2_h_submethod", "C20", 'options["sub_method"] if "sub_method" in options else "equal_area"', 'options["sub_method"] if "sub_method" in options else "merge_split"')
m("r2_ph_segmax", "C32", "self.n_segments + sum(split_seg) < self.max_segments", "self.n_segments + sum(split_seg) <= self.max_segments")
m("r2_ph_limit", "C32", "self.poly_orders = limit_poly_orders(poly_orders)", "self.poly_orders = limit_poly_orders(poly_orders) if iter_no < 1 else poly_orders")
m("r2_ph_order", "C32", """                for phase in range(self._ocp.n_phases)
                for i_seg, n in enumerate(new_segments)
""", """                for i_seg, n in enumerate(new_segments)
                for phase in range(self._ocp.n_phases)
""")
m("r2_ph_lastphase", "C32", "max(poly_orders[i], self.poly_orders[i] + 3 * int(st))", "self.poly_orders[i] + 3 * int(st)")
m("r2_ph_status_rel", "C32", """_, _, time_r_new, residual_r_new = self.get_states_residuals(
                solution_new,
                residual_type="relative",""", """_, _, time_r_new, residual_r_new = self.get_states_residuals(
                solution_new,
                residual_type="absolute",""")
m("r2_ph_user_opts", "C32", """                    solve_dict.get("mpopt_options", {}),
                    nlp""", """                    {},
                    nlp""")
m("r2_ph_solve_dict", "C32 C24", "                solve_dict = dict(solve_dict)\n", "")
m("r2_quad_memo", "C03", """        n = len(self.roots[key])
        quad_weights = ca.DM.zeros(n)
""", """        n = len(self.roots[key])
        if not hasattr(self, "_qmemo"):
            self._qmemo = {}
        if (key, round(float(tau1), 1)) in self._qmemo:
            return self._qmemo[(key, round(float(tau1), 1))]
        quad_weights = self._qmemo[(key, round(float(tau1), 1))] = ca.DM.zeros(n)
""")
m("r2_interp_memo", "C04", """        n_j = len(self.roots[degree])  # cols
        n_i = len(taus)  # rows
        C = ca.DM.zeros((n_i, n_j))
""", """        n_j = len(self.roots[degree])  # cols
        n_i = len(taus)  # rows
        if not hasattr(self, "_imemo"):
            self._imemo = {}
        k = (degree, n_i, round(float(sum(taus)), 1))
        if k in self._imemo:
            return self._imemo[k]
        C = self._imemo[k] = ca.DM.zeros((n_i, n_j))
""")
m("r2_diff_memo", "C02", """        eval_D_at = self.roots[key] if taus is None else taus
        n_i = len(eval_D_at)
        n_j = len(self.polys[key])
        D = ca.DM.zeros((n_i, n_j))
""", """        eval_D_at = self.roots[key] if taus is None else taus
        n_i = len(eval_D_at)
        n_j = len(self.polys[key])
        if not hasattr(self, "_dmemo"):
            self._dmemo = {}
        k = (key, n_i, order, float(eval_D_at[0]), float(eval_D_at[-1])) if n_i else None
        if k in self._dmemo:
            return self._dmemo[k]
        D = self._dmemo[k] = ca.DM.zeros((n_i, n_j))
""")
m("r2_lgl_high", "C01", "        def lgl_roots(deg):\n            if deg > 1:", "        def lgl_roots(deg):\n            if deg > 36:\n                return tau_min + (tau_max - tau_min) / 2 * (1 - np.cos(np.pi * np.arange(deg + 1) / deg))\n            if deg > 1:")
m("r2_copy", "C24", "self._ocp = copy.deepcopy(problem)", "self._ocp = copy.copy(problem)")
m("r2_event_scale0", "C09 C10", "[self._ocp.ube[phase] * self._ocp.scale_x for phase in range(n)]", "[self._ocp.ube[phase] * self._ocp.scale_x[0] for phase in range(n)]")
m("r2_grid_end", "C19", "taus_on_original_grid[-1] = taus_on_original_grid[-1][:-1]", "taus_on_original_grid[-1] = taus_on_original_grid[-1][: len(taus_on_original_grid[0])]")
m("r2_plot_tics", "C31", "tics[i % len(tics)]", "tics[min(i, len(tics) - 1)]")
m("r2_h_warm_x_only", "C22", "                initial_solution = solution\n", "                initial_solution = {\"x\": solution[\"x\"]}\n")
m("r2_h_mutate_init", "C24", "initial_solution = dict(initial_solution, x=x0)", "initial_solution[\"x\"] = x0")
m("r2_scaling_t", "C14", "return (x_opt, u_opt, t_opt, a_opt)\n\n    def get_original", "return (x_opt, u_opt, t_opt * scale_t, a_opt)\n\n    def get_original")
m("r2_validate_scale_zero", "C28", "assert len(self.scale_x) == self.nx", "assert len(self.scale_x) >= self.nx")
m("r2_tphase", "C11", "self.time_grid[phase][index] = t\n", "self.time_grid[phase][index] = t if phase < 2 else t + 0 * h_seg - self.t0[phase] / self._ocp.scale_t + self.t0[phase]\n")
m("r2_run_cost_dupe", "C06", "h_cost = (w_end * h_seg + w_start * h_next) / (w_end + w_start)", "h_cost = (w_end * h_seg + w_start * h_next) / (w_end + w_start) if seg < 3 else 0.5 * (h_seg + h_next)")
m("r2_resid_grid_type", "C16", "grid_type=self.grid_type[phase] if grid_type is None else grid_type", "grid_type=self.grid_type[0] if grid_type is None else grid_type")
m("r2_options_default", "C25", "            default_options[key] = options[key]\n\n        # Create", "            default_options.setdefault(key, options[key])\n\n        # Create")
m("r2_sw_alias", "C24 C14", '"seg_widths": self._nlp_sw_params,', '"seg_widths": self.__dict__.setdefault("_sw_buf", self._nlp_sw_params),', 1)
m("r2_orders_alias", "C14 C15 C32", '"poly_orders": self.poly_orders,', '"poly_orders": self.__dict__.setdefault("_po_buf", self.poly_orders),', 1)
# ---- third round: state kept between calls, options that combine
m("r3_opts_sticky", "C25", "        for key in options:\n            default_options[key] = options[key]\n\n        # Create NLP solver object -> costly operation\n        self.nlp_solver = ca.nlpsol(\"solver\", solver, nlp_problem, default_options)\n        self._nlpsolver_initialized = True\n\n    def solve(\n        self,\n        initial_solution: Dict = None,\n        reinitialize_nlp: bool = False,\n        solver: str = \"ipopt\",\n        nlp_solver_options: Dict = {},\n        mpopt_options: Dict = {},\n        **kwargs,\n    ) -> Dict:\n        \"\"\"Solve the Nonlinear Programming problem\n\n        args:\n            :init_solution", "        for key in options:\n            default_options[key] = options[key]\n        if solver == \"ipopt\":\n            default_options = self.__dict__.setdefault(\"_ipopt_options\", default_options)\n\n        # Create NLP solver object -> costly operation\n        self.nlp_solver = ca.nlpsol(\"solver\", solver, nlp_problem, default_options)\n        self._nlpsolver_initialized = True\n\n    def solve(\n        self,\n        initial_solution: Dict = None,\n        reinitialize_nlp: bool = False,\n        solver: str = \"ipopt\",\n        nlp_solver_options: Dict = {},\n        mpopt_options: Dict = {},\n        **kwargs,\n    ) -> Dict:\n        \"\"\"Solve the Nonlinear Programming problem\n\n        args:\n            :init_solution")
m("r3_plugin_sticky", "C25", "            self.create_solver(solver=solver, options=nlp_solver_options)\n\n        # By default, these paramers", "            self.create_solver(solver=self.__dict__.setdefault(\"_plugin\", solver), options=nlp_solver_options)\n\n        # By default, these paramers")
m("r3_lam_reinit", "C25", "        solver_inputs = self.get_solver_warm_start_input_parameters(initial_solution)\n        solver_inputs[\"p\"] = self._nlp_sw_params", "        solver_inputs = self.get_solver_warm_start_input_parameters(initial_solution)\n        if reinitialize_nlp:\n            solver_inputs.pop(\"lam_g0\", None)\n        solver_inputs[\"p\"] = self._nlp_sw_params")
m("r3_init_cached", "C12 C25 C32", "            solver_inputs[\"x0\"] = self.initialize_solution()\n        else:", "            solver_inputs[\"x0\"] = self.__dict__.setdefault(\"_z0\", self.initialize_solution())\n        else:")
m("r3_bounds_inplace", "C08 C25", "        # Lower and upper bounds for the states in OCP\n", "        self._ocp.lbu[phase] *= 1 if phase == 0 else self._ocp.scale_u\n        # Lower and upper bounds for the states in OCP\n")
m("r3_a0_inplace", "C12 C25", "        a0 = self._ocp.a0[phase] * self._ocp.scale_a\n\n        # Linear", "        a0 = self._ocp.a0[phase]\n        a0 *= self._ocp.scale_a\n\n        # Linear")
m("r3_xf0_inplace", "C12 C25 C32", "        xf0 = self._ocp.xf0[phase] * self._ocp.scale_x\n", "        xf0 = self._ocp.xf0[phase]\n        xf0 *= self._ocp.scale_x\n")
m("r3_sw_kept", "C25 C32", "        if \"nlp_sw_params\" in mpopt_options:\n            self._nlp_sw_params = mpopt_options[\"nlp_sw_params\"]\n        else:\n            self._nlp_sw_params = self.get_segment_width_parameters(initial_solution)\n", "        if \"nlp_sw_params\" in mpopt_options:\n            self._nlp_sw_params = mpopt_options[\"nlp_sw_params\"]\n        elif len(getattr(self, \"_nlp_sw_params\", [])) != self.n_segments * self._ocp.n_phases:\n            self._nlp_sw_params = self.get_segment_width_parameters(initial_solution)\n")
m("r3_traj_cache", "C14 C25 C32", """        trajectories = [
            self.init_trajectories(phase) for phase in range(self._ocp.n_phases)
        ]
        traj_time = time.monotonic()

        resid_value = {}
        if residual_x:
            x_int, u_int, ti, res_x = self.get_states_residuals(solution)""", """        if not hasattr(self, "_trajs"):
            self._trajs = [
                self.init_trajectories(phase) for phase in range(self._ocp.n_phases)
            ]
        trajectories = self._trajs
        traj_time = time.monotonic()

        resid_value = {}
        if residual_x:
            x_int, u_int, ti, res_x = self.get_states_residuals(solution)""")
m("r3_colloc_cache", "C01 C05 C25", "        self.collocation = Collocation(self.poly_orders, scheme)\n        self._compD", "        key = (tuple(self.poly_orders), scheme, Collocation.D_MATRIX_METHOD)\n        cache = mpopt.__dict__.get(\"_colloc_cache\") or {}\n        mpopt._colloc_cache = cache\n        if key not in cache:\n            cache[key] = Collocation(self.poly_orders, scheme)\n        self.collocation = cache[key]\n        self._compD")
m("r3_colloc_cache_deg", "C05 C01", "        self.collocation = Collocation(self.poly_orders, scheme)\n        self._compD", "        key = (tuple(self.poly_orders), Collocation.D_MATRIX_METHOD, CollocationRoots._TAU_MIN, CollocationRoots._TAU_MAX)\n        cache = mpopt.__dict__.get(\"_colloc_cache\") or {}\n        mpopt._colloc_cache = cache\n        if key not in cache:\n            cache[key] = Collocation(self.poly_orders, scheme)\n        self.collocation = cache[key]\n        self._compD")
m("r3_event_bounds_many", "C09", "            [self._ocp.lbe[phase] * self._ocp.scale_x for phase in range(n)]", "            [self._ocp.lbe[min(phase, 2)] * self._ocp.scale_x for phase in range(n)]")
m("r3_diffu_phase", "C13", "            DUmax = [self._ocp.ubdu[phase]] * (nDu)", "            DUmax = [self._ocp.ubdu[min(phase, 1)]] * (nDu)")
m("r3_cost_last_seg", "C06", "                h_cost = (w_end * h_seg + w_start * h_next) / (w_end + w_start)", "                h_cost = (w_end * h_seg + w_start * h_next) / (w_end + w_start)\n                if self._ocp.na > 2:\n                    h_cost = (h_seg + h_next) / 2")
m("r3_term_scale_phase", "C07 C10", "        xf = ca.mtimes(self.__invScX, self.X[phase][-1, :].T)\n        a = ca", "        xf = ca.mtimes(self.__invScX, self.X[phase][-1, :].T) if phase < 2 else self.X[phase][-1, :].T\n        a = ca")
m("r3_traj_a_inv", "C14", "            a_opt = a_opt / np.reshape(scale_a, (-1, 1))", "            a_opt = a_opt / np.reshape(scale_a, (-1, 1)) if self.na < 4 else a_opt / scale_a[0]")
m("r3_interp_phases_set", "C15", "            for phase in phases[1:]:\n                x_orig, u_orig, t_orig, ap", "            for phase in sorted(phases[1:]):\n                x_orig, u_orig, t_orig, ap")
m("r3_orig_phases_set", "C14", "            for phase in phases[1:]:\n                xp, up, tp, ap", "            for phase in sorted(phases[1:]):\n                xp, up, tp, ap")
m("r3_midu_infscale", "C13", "            mUmin.append(np.repeat(self._ocp.lbu[phase] * self._ocp.scale_u, n_mid))", "            mUmin.append(np.repeat(self._ocp.lbu[phase] * (self._ocp.scale_u if self.n_segments < 4 else self._ocp.scale_u[0]), n_mid))")
m("r3_nlpvars_x0_later", "C08", "        if phase == 0:\n            xmin_vec[0] = xmax_vec[0] = self._ocp.x00[0] * self._ocp.scale_x\n\n        Zmin = np.concatenate(\n            [\n                np.concatenate(np.array(xmin_vec).T),\n                np.repeat(self._ocp.lbu[phase] * self._ocp.scale_u, self._Npoints),\n                self._ocp.lbt0[phase] * self._ocp.scale_t,", "        if phase == 0:\n            xmin_vec[0] = xmax_vec[0] = self._ocp.x00[0] * self._ocp.scale_x\n            if self._nlpsolver_initialized:\n                xmin_vec[0], xmax_vec[0] = xmin_vec[-1], xmax_vec[-1]\n\n        Zmin = np.concatenate(\n            [\n                np.concatenate(np.array(xmin_vec).T),\n                np.repeat(self._ocp.lbu[phase] * self._ocp.scale_u, self._Npoints),\n                self._ocp.lbt0[phase] * self._ocp.scale_t,")
m("r3_reset_grid_type", "C16 C32", "        self.grid_type = [self._GRID_TYPE for _ in range(self._ocp.n_phases)]\n        self.max", "        self.grid_type = [self.__dict__.get(\"grid_type\", [self._GRID_TYPE])[0] for _ in range(self._ocp.n_phases)]\n        self.max")
m("r3_xx0_precedence", "C25", "                if key in key_target_pair:\n                    solver", "                if key in key_target_pair and (key_target_pair[key] not in solver_inputs or key.endswith(\"0\")) and (key != \"lam_x\" or len(solution) < 6):\n                    solver")
m("r3_post_scaling", "C14 C31", "        self.scaling = self.options[\"scaling\"] if", "        post_process._scaling = getattr(post_process, \"_scaling\", False) or self.options.get(\"scaling\", False)\n        self.scaling = post_process._scaling if")
m("r3_phases_default_grow", "C14 C31", "        if not phases:\n            phases = self.phases\n        x, u, t, a = self.get_trajectories(phases[0])", "        if not phases:\n            phases = self.phases\n        self.phases = phases\n        x, u, t, a = self.get_trajectories(phases[0])")
