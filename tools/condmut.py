"""tools/condmut.py N [seed] [--frac F] [--fn name] [--only i:j ...]: as automut.py, but every mutation
takes effect only under a trigger (a phase, a number of segments, an option, a repeated call ...) and
the log says in which checks the mutated value differed while the trigger was on:
  SURVIVED eff=0   no check reached it (or it cannot happen);  eff>0: reached, not told apart."""
import argparse, ast, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from automut import ALL, B, FIRST, TREE, V, mutants, span

HELP = '''
import os as _os, numpy as _mnp
_mstate = {"n": {}, "log": 0}
def _mlog():
    p = _os.environ.get("VMON_HITS")
    if p and _mstate["log"] < 3:
        _mstate["log"] += 1
        with open(p, "a") as fh:
            fh.write("x")
def _mdiff(a, b):
    try:
        return repr(a) != repr(b)
    except Exception:
        return True
def _mcond(c):
    try:
        return bool(c())
    except Exception:
        return False
def _mc(c, e, m):
    if not _mcond(c):
        return e()
    v = m()
    try:
        if _mstate["log"] < 3 and _mdiff(v, e()):
            _mlog()
    except Exception:
        _mlog()
    return v
def _mhit(c):
    r = _mcond(c)
    if r:
        _mlog()
    return r
def _mnth(key, obj=None):
    k = (key, id(obj) if obj is not None else 0)
    _mstate["n"][k] = _mstate["n"].get(k, 0) + 1
    return _mstate["n"][k]
'''
MP = ["self.n_segments > 3", "self.n_segments == 1", "self.n_segments > 6", "self._ocp.n_phases > 2",
      "self._ocp.n_phases == 2", "self._ocp.na > 1", "self._ocp.nx > 2", "self._ocp.nu > 1", "self._ocp.nu > 2",
      "max(self.poly_orders) > 6", "len(set(self.poly_orders)) > 1", "min(self.poly_orders) == 1",
      "self._ocp.scale_t != 1", "any(self._ocp.midu)", "any(self._ocp.diff_u)", "any(self._ocp.du_continuity)",
      "self.colloc_scheme == 'CGL'", "self.colloc_scheme == 'LGL'", "self._ocp.na > 0 and self._ocp.n_phases > 1",
      "self._ocp.scale_x is not None and _mnp.any(_mnp.asarray(self._ocp.scale_x) != 1)",
      "_mnp.any(_mnp.asarray(self._ocp.scale_u) != 1)", "_mnp.any(_mnp.asarray(self._ocp.scale_a) != 1)",
      "_mnth('K', self) > 1", "_mnth('K', self) > 2", "_mnth('K', self) > 4", "_mnth('K') > 3",
      "self._ocp.scale_t != 1 and self._ocp.n_phases > 1", "self._TAU1 == 1",
      "CollocationRoots._TAU_MIN == 0",
      "Collocation.D_MATRIX_METHOD == 'numerical'", "_mnp.any(_mnp.asarray(self._ocp.lbtf) == _mnp.asarray(self._ocp.ubtf))",
      "_mnp.any(_mnp.asarray(self._ocp.lbt0) != 0)", "len(set(self._ocp.lbtf.ravel())) > 1",
      "bool(self._nlpsolver_initialized)"]
PC = ["degree > 8", "deg > 8", "degree > 12", "deg > 12", "degree == 1", "deg == 1", "deg == 2", "degree == 4", "len(keys) > 3",
      "len(poly_orders) > 4", "len(taus) > 3", "order > 1", "self.D_MATRIX_METHOD == 'numerical'",
      "self.scheme == 'CGL'", "self.scheme == 'LGL'", "self.scheme == 'LGR'", 
      "tau_min == 0", "CollocationRoots._TAU_MIN == 0", "_mnth('K', self) > 1", "_mnth('K', self) > 3", "_mnth('K') > 4",
      "len(poly_orders) != len(set(poly_orders))", "poly_orders[0] > poly_orders[-1]", "len(taus) == 1",
      "self.poly_orders and max(self.poly_orders) > 6"]
OC = ["self.n_phases > 2", "self.n_phases == 2", "self.nx > 2", "self.na > 1", "self.nu > 1", "phase > 1",
      "phase == self.n_phases - 1", "self.n_phases > 3", "self.nx == 1", "self.nu == 1", "self.na == 0 and self.n_phases > 1",
      "_mnth('K', self) > 1"]
PP = ["len(phases) > 1", "len(phases) > 2", "phase > 0", "phase > 1", "phases[0] > 0", "self.options['nPh'] > 1",
      "len(dims) > 1", "dims[0] > 0", "self.options['ns'] > 3", "len(set(self.options['poly_orders'])) > 1", "self.options['colloc_scheme'] == 'CGL'", "len(self.phases) > 1", "_mnth('K', self) > 1",
      "_mnth('K', self) > 3", "_mnth('K') > 3", "interpolate", "not interpolate", "len(taus) > 3", "n > 75", "x.shape[1] > 2",
      "axs is not None", "fig is not None", "len(taus_orig) > 6", "nx > 2", "name is not None", "self.scaling",
      "list(phases) != sorted(phases)", "len(dims) == 1"]
LOC = ["phase > 0", "phase > 1", "phase == self._ocp.n_phases - 1", "seg > 1", "seg == self.n_segments - 1",
       "segment > 1", "index > 1", "i > 1", "i > 3", "j > 1", "k > 2", "n_segments > 3", "itr > 0", "itr > 1",
       "iter_count > 1", "plot", "solution is not None", "len(residuals) > 3", "len(times) > 2", "times is not None and len(times) > 0",
       "len(phases) > 1", "len(phases) == 1 and phases[0] > 0", "grid_type == 'fixed'", "grid_type == 'mid-points'",
       "grid_type == 'spectral'", "nodes is not None", "reinitialize_nlp", "solver != 'ipopt'", "len(nlp_solver_options) > 0",
       "max_iter > 2", "max_iter > 3", "len(taus) > 3", "len(threshold) > 0", "t_grid[-1] > 10", "self.tol > 1e-2",
       "self._ocp.lbu is not None and _mnp.any(_mnp.isinf(_mnp.asarray(self._ocp.lbu)))", "t0 != 0", "tf > 2", "tf < 1", "t0 < 0"]


O = "self._ocp."
RARE = ["self.n_segments > 9", "max(self.poly_orders) > 9", O + "n_phases > 4", O + "nx > 5", O + "nu > 4", O + "na > 3",
        O + "scale_t > 5", O + "scale_t < 0.2", "_mnp.max(" + O + "scale_x) > 50", "_mnp.min(" + O + "scale_u) < 0.02",
        "_mnp.min(_mnp.asarray(self._nlp_sw_params, float)) < 0.02", "_mnp.max(_mnp.asarray(self._nlp_sw_params, float)) > 0.9",
        "_mnp.any(" + O + "lbx == " + O + "ubx)", "_mnp.any(" + O + "lbu == " + O + "ubu)", "_mnp.any(" + O + "lbx == 0)",
        "_mnp.max(" + O + "tf0) > 100", "_mnp.min(" + O + "t00) < -3", "_mnp.max(" + O + "tf0 - " + O + "t00) > 50",
        "_mnp.min(abs(" + O + "tf0 - " + O + "t00)) < 0.3", "list(" + O + "phase_links) != sorted(" + O + "phase_links)",
        "len(" + O + "phase_links) < " + O + "n_phases - 1", O + "nx < " + O + "nu", O + "nx == 1 and " + O + "nu == 1 and " + O + "n_phases > 1",
        "self.poly_orders[0] == 1 and self.n_segments > 1", "self.poly_orders[-1] > 2 * self.poly_orders[0]", 
        "any(" + O + "diff_u) and self.colloc_scheme == 'LGL'", "any(" + O + "midu) and any(" + O + "du_continuity) and " + O + "n_phases > 1",
        "len(set(self.grid_type)) > 1", "_mnp.all(" + O + "lba == " + O + "uba)", "_mnp.any(_mnp.isinf(" + O + "lbx))",
        "_mnp.any(" + O + "lbe != " + O + "ube)", "_mnp.any(" + O + "lbe > 0)", "_mnp.max(" + O + "ubtf) > 100", 
        O + "na > 0 and " + O + "na == " + O + "nx", O + "nx == " + O + "nu and " + O + "nx > 1", 
        "_mnp.any(" + O + "x00 == 0)", "self._ocp.n_phases > 1 and _mnp.ptp(" + O + "lbdu) > 0"]
USE_RARE = [False]


def triggers(cls, fn, names):
    c = []
    if USE_RARE[0]:
        return RARE
    if cls.startswith("mpopt"):
        c += MP + LOC + LOC
    elif cls in ("Collocation", "CollocationRoots"):
        c += PC
    elif cls == "OCP":
        c += OC
    elif cls == "post_process":
        c += PP
    else:
        c += LOC
    return [x for x in c if visible(x, names)]


def visible(cond, names):
    """Only names of the function (or of the module) appear"""
    ok = set(names) | {"len", "max", "min", "set", "any", "list", "sorted", "bool", "_mnp", "_mnth",
                       "CollocationRoots", "Collocation"}
    return all(n.id in ok for n in ast.walk(ast.parse(cond)) if isinstance(n, ast.Name))


def info():
    """function -> (class, names)"""
    out = {}

    def visit(n, path):
        for c in ast.iter_child_nodes(n):
            p = path + [c.name] if isinstance(c, (ast.FunctionDef, ast.ClassDef)) else path
            if isinstance(c, ast.FunctionDef):
                out[".".join(p)] = {x.id for x in ast.walk(c) if isinstance(x, ast.Name)} | {x.arg for x in ast.walk(c) if isinstance(x, ast.arg)}
            visit(c, p)

    visit(TREE, [])
    return out


# method -> checks that ought to notice
OWN = {
    "get_discretized_dynamics_constraints_and_cost_matrices": "C05 C06 C07 C11 C10 C23",
    "get_nlp_constraints_for_dynamics": "C05 C23", "get_nlp_constraints_for_path_contraints": "C07",
    "get_nlp_constraints_for_terminal_contraints": "C07 C06 C10",
    "get_nlp_constraints_for_control_input_slope": "C13 C23",
    "get_nlp_constrains_for_control_input_at_mid_colloc_points": "C13 C23",
    "get_nlp_constrains_for_control_slope_continuity_across_segments": "C13 C23",
    "discretize_phase": "C05 C06 C07 C13 C23", "get_event_constraints": "C09 C10",
    "get_nlp_variables": "C08 C23", "create_nlp": "C05 C06 C07 C08 C09 C25",
    "init_solution_per_phase": "C12", "initialize_solution": "C12 C25 C32", "get_segment_width_parameters": "C12 C20 C25 C22",
    "create_solver": "C25", "solve": "C25 C22 C32 C24", "get_solver_warm_start_input_parameters": "C25 C22",
    "init_trajectories": "C14 C15 C11 C23", "process_results": "C14 C31 C15 C23", "validate": "C28",
    "compute_states_from_solution_dynamics": "C17 C32", "get_states_residuals": "C17 C32 C31",
    "get_residual_grid_taus": "C19 C16 C17", "compute_interpolation_taus_corresponding_to_original_grid": "C19 C17",
    "get_state_second_derivative": "C18 C31", "get_state_second_derivative_single_phase": "C18",
    "get_dynamics_residuals": "C16 C11 C31", "get_dynamics_residuals_single_phase": "C16",
    "interpolate_single_phase": "C17 C16 C18", "get_interpolated_time_grid": "C15 C17 C11",
    "__init__": "C25 C24 C32 C28 C22 C14", "reset_mpopt": "C32 C25", "compute_numerical_approximation": "C05 C06 C29 C25",
    "create_variables": "C05 C10 C13 C14", "init_segment_width": "C05 C23",
}
CLS = {"post_process": "C14 C15 C31 C11 C32", "mpopt_h_adaptive": "C21 C20 C22", "mpopt_adaptive": "C23 C08 C12 C25 C14 C15 C16 C17 C18",
       "mpopt_ph_adaptive": "C32", "OCP": "C28 C05 C07 C08 C09 C12", "Collocation": "C02 C03 C04 C29 C25 C17", "CollocationRoots": "C01 C02 C03 C04",
       "solve": "C25", "get_segment_boundaries": "C20"}


def own(f):
    c, m = f.split(".")[0], f.split(".")[-1] if "." in f else f.split(".")[0]
    if c == "mpopt":
        for x in f.split(".")[1:]:
            if x in OWN:
                return OWN[x].split()
    return CLS.get(c, "C05 C25").split()


BODY = []
for n in ast.walk(TREE):
    if isinstance(n, ast.FunctionDef):
        a, b = span(n.body[0])[0], span(n.body[-1])[1]
        BODY.append((a, b))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("n", type=int)
    ap.add_argument("seed", type=int, nargs="?", default=1)
    ap.add_argument("--frac", type=float, default=0.5)
    ap.add_argument("--fn", default="")
    ap.add_argument("--par", type=int, default=8)
    ap.add_argument("--only", nargs="*")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--checks", default="")
    ap.add_argument("--rare", action="store_true")
    a = ap.parse_args()
    USE_RARE[0] = a.rare
    names = info()
    ms = [m for m in enumerate(mutants()) if a.fn in m[1][0] and m[1][0] in names and (not a.rare or m[1][0].split('.')[0] in ('mpopt', 'mpopt_adaptive', 'mpopt_h_adaptive', 'mpopt_ph_adaptive')) and any(s <= m[1][2] and m[1][3] <= e for s, e in BODY)]
    rnd = random.Random(a.seed)
    todo = []
    size = {}
    for i, m in ms:
        size.setdefault(m[0], []).append((i, m))
    fns = sorted(size)
    w = [len(size[f]) ** 0.6 for f in fns]
    while len(todo) < a.n:
        f = rnd.choices(fns, w)[0]
        i, m = rnd.choice(size[f])
        tr = triggers(f.split(".")[0], f, names[f])
        j = rnd.randrange(len(tr))
        todo.append((i, m, j, tr[j]))
    if a.only:
        allm = dict(ms)
        todo = []
        for x in a.only:
            i, j = map(int, x.split(":"))
            f = allm[i][0]
            todo.append((i, allm[i], j, triggers(f.split(".")[0], f, names[f])[j]))
    print("chosen", len(todo), flush=True)

    def one(t):
        i, (f, line, s, e, new), j, cond = t
        old = B[s:e].decode()
        cond = cond.replace("'K'", "'m'")
        name = "#%d:%d %s:%d  %s  ->  %s  if %s" % (i, j, f, line, " ".join(old.split())[:80], " ".join(new.split())[:80], cond)
        if "super()" in old or ":=" in old or "yield" in old:
            return name + " | SKIP"
        if new == "pass":
            rep = "if not _mhit(lambda: %s): %s" % (cond, old)
        elif "=" in new and new.replace("==", "").replace("<=", "").replace(">=", "").replace("!=", "").count("=") and old.count("+="):
            return name + " | SKIP"
        else:
            rep = "_mc(lambda: %s, lambda: (%s), lambda: (%s))" % (cond, old, new)
        txt = (B[:s] + rep.encode() + B[e:]).decode()
        k = txt.index("\nclass mpopt:")
        txt = txt[:k] + HELP + txt[k:]
        try:
            compile(txt, "m", "exec")
        except SyntaxError:
            return name + " | INVALID"
        d = tempfile.mkdtemp(prefix="am_", dir="/tmp")
        try:
            for k in ("mpopt", "tests", "examples"):
                shutil.copytree("/repo/" + k, d + "/" + k, ignore=shutil.ignore_patterns("__pycache__"))
            open(d + "/mpopt/mpopt.py", "w").write(txt)
            os.makedirs(d + "/out/evidence"); os.makedirs(d + "/out/replay")
            env = dict(os.environ, VMON_REPO=d, VMON_OUT=d + "/out", PYTHONPATH=d, MPLBACKEND="Agg",
                       OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
                       VERIF_SEED="1", VMON_FRAC=str(a.frac))
            if not a.checks:
                try:
                    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
                                        "tests"], cwd=d, env=env, capture_output=True, text=True, timeout=150)
                    if r.returncode:
                        return name + " | tests"
                except subprocess.TimeoutExpired:
                    return name + " | tests (time)"
            first = FIRST.get(f.split(".")[0], "").split()
            bad, eff = [], []
            for p in (a.checks.split() or (first + [p for p in ALL if p not in first] if a.all else own(f))):
                h = d + "/hits_" + p
                try:
                    r = subprocess.run([V + "/run", p, "--jobs", "1"], env=dict(env, VMON_HITS=h), capture_output=True, text=True, timeout=1500)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = "time"
                if os.path.exists(h):
                    eff.append(p)
                if rc == 1:
                    return name + " | %s%s" % (p, " after " + " ".join(bad) if bad else "")
                if rc:
                    bad.append("%s=rc%s" % (p, rc))
            return name + " | SURVIVED eff=%s %s" % (",".join(eff) or 0, " ".join(bad))
        finally:
            shutil.rmtree(d, ignore_errors=True)

    with ThreadPoolExecutor(a.par) as ex:
        for r in (f.result() for f in as_completed([ex.submit(one, t) for t in todo])):
            print(r, flush=True)


if __name__ == "__main__":
    main()
