"""tools/automut.py N [seed] [--frac F] [--fn name] [--out FILE]: N random source mutants of mpopt.py,
8 at a time in scratch copies: the repository's tests, then the checks (own functions' first)
with --frac of their quick cases until one reports.  One line per mutant; survivors passed all."""
import argparse, ast, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = open("/repo/mpopt/mpopt.py").read()
TREE = ast.parse(SRC)
LINES = SRC.splitlines(keepends=True)
OFF = [0]
for l in LINES:
    OFF.append(OFF[-1] + len(l.encode()))
B = SRC.encode()
pos = lambda l, c: OFF[l - 1] + c
span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
text = lambda n: B[slice(*span(n))].decode()
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="],
       ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"],
       ast.FloorDiv: ["*"], ast.Mod: ["+"]}
ATTR = [("lb", "ub"), ("ub", "lb"), ("00", "f0"), ("f0", "00"), ("min", "max"), ("max", "min"),
        ("x", "u"), ("u", "x")]
SKIP_FN = {"__repr__"}


def mutants():
    out = []  # (function, line, start, end, new)

    def visit(node, fn):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + [node.name]
        f = ".".join(fn)
        add = lambda n, new: out.append((f, n.lineno) + span(n) + (new,))
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for o in CMP.get(type(node.ops[0]), []):
                add(node, "(%s) %s (%s)" % (text(node.left), o, text(node.comparators[0])))
        elif isinstance(node, ast.BinOp):
            for o in BIN.get(type(node.op), []):
                add(node, "((%s) %s (%s))" % (text(node.left), o, text(node.right)))
        elif isinstance(node, ast.Constant) and fn:
            v = node.value
            if isinstance(v, bool):
                add(node, str(not v))
            elif isinstance(v, int):
                add(node, str(v + 1))
                if v > 0:
                    add(node, str(v - 1))
            elif isinstance(v, float):
                add(node, repr(v * 2))
        elif isinstance(node, ast.BoolOp):
            w = " or " if isinstance(node.op, ast.And) else " and "
            add(node, "(" + w.join("(%s)" % text(x) for x in node.values) + ")")
            for x in node.values:
                add(node, text(x))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
            add(node, "(%s)" % text(node.operand))
        elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Name):
            add(node.slice, "0")
            if node.slice.id == "phase":
                add(node.slice, "-1")
        elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            s = node.slice
            if s.lower is not None:
                add(s.lower, "(%s) + 1" % text(s.lower))
            if s.upper is not None:
                add(s.upper, "(%s) - 1" % text(s.upper))
        elif isinstance(node, (ast.If, ast.IfExp)):
            add(node.test, "True")
            add(node.test, "False")
        elif isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
            for a, b in ATTR[:4]:
                if node.attr.startswith(a) and a in ("lb", "ub"):
                    add(node, text(node.value) + "." + b + node.attr[2:])
                elif node.attr.endswith(a) and a in ("00", "f0"):
                    add(node, text(node.value) + "." + node.attr[:-2] + b)
            for a in ("min", "max"):
                if node.attr == a:
                    add(node, text(node.value) + "." + ("max" if a == "min" else "min"))
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("min", "max"):
            add(node.func, "max" if node.func.id == "min" else "min")
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "range" and node.args:
            add(node.args[-1], "(%s) - 1" % text(node.args[-1]))
            add(node, "reversed(%s)" % text(node))
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in (
                "list", "tuple", "abs", "float", "dict", "copy") and len(node.args) == 1:
            add(node, "(%s)" % text(node.args[0]))
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in (
                "copy", "deepcopy", "abs", "sort", "sorted", "cumsum", "unique"):
            add(node, "(%s)" % (text(node.args[0]) if node.args else text(node.func.value)))
        if isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Return)) and fn:
            if not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
                t = text(node)
                if not t.startswith("print"):
                    add(node, "pass")
                if isinstance(node, ast.AugAssign):
                    add(node, t.replace("+=", "=", 1))
        if isinstance(node, (ast.Break, ast.Continue)):
            add(node, "pass")
        for c in ast.iter_child_nodes(node):
            visit(c, fn)

    for n in TREE.body:
        if isinstance(n, (ast.ClassDef, ast.FunctionDef)):
            visit(n, [])
    # nothing inside print() calls, annotations or docstrings
    bad = []
    for n in ast.walk(TREE):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print":
            bad.append(span(n))
        if isinstance(n, ast.AnnAssign):
            bad.append(span(n.annotation))
        if isinstance(n, ast.arg) and n.annotation is not None:
            bad.append(span(n.annotation))
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            bad.append(span(n.returns))
        if isinstance(n, ast.JoinedStr):
            bad.append(span(n))
    return [m for m in out if not any(a <= m[2] and m[3] <= b for a, b in bad)]


FIRST = {  # function -> checks to try first
    "Collocation": "C02 C03 C04 C29", "CollocationRoots": "C01 C02", "OCP": "C28 C10 C05 C07 C08",
    "post_process": "C14 C15 C31", "mpopt_h_adaptive": "C21 C20 C22", "mpopt_adaptive": "C23 C25 C14",
    "mpopt_ph_adaptive": "C32", "mpopt": "C05 C13 C07 C09 C08 C06 C12 C11 C14 C16 C17 C18 C19",
    "solve": "C25", "get_segment_boundaries": "C20"}
ALL = ["C%02d" % i for i in range(1, 33)]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("n", type=int)
    ap.add_argument("seed", type=int, nargs="?", default=1)
    ap.add_argument("--frac", type=float, default=0.4)
    ap.add_argument("--fn", default="")
    ap.add_argument("--par", type=int, default=8)
    ap.add_argument("--only", type=int, nargs="*", help="indices of mutants")
    a = ap.parse_args()
    ms = mutants()
    rnd = random.Random(a.seed)
    idx = [i for i in range(len(ms)) if a.fn in ms[i][0]]
    rnd.shuffle(idx)
    # spread over functions
    seen, order = {}, []
    for i in idx:
        k = seen.get(ms[i][0], 0)
        seen[ms[i][0]] = k + 1
        order.append((k + rnd.random() * 0.999, i))
    size = {f: sum(1 for m in ms if m[0] == f) for f in seen}
    order = sorted(((k / size[ms[i][0]] ** 0.7), i) for k, i in order)
    idx = a.only if a.only else [i for _, i in order[: a.n]]
    print("mutants %d, chosen %d" % (len(ms), len(idx)), flush=True)

    def one(i):
        f, line, s, e, new = ms[i]
        old = B[s:e].decode()
        txt = (B[:s] + new.encode() + B[e:]).decode()
        name = "#%d %s:%d  %s  ->  %s" % (i, f, line, " ".join(old.split())[:90], " ".join(new.split())[:90])
        try:
            compile(txt, "m", "exec")
        except SyntaxError:
            return name + " | INVALID"
        d = tempfile.mkdtemp(prefix="am_", dir="/tmp")
        try:
            for k in ("mpopt", "tests", "examples"):
                shutil.copytree("/repo/" + k, d + "/" + k, ignore=shutil.ignore_patterns("__pycache__"))
            open(d + "/mpopt/mpopt.py", "w").write(txt)
            os.makedirs(d + "/out/evidence"); os.makedirs(d + "/out/replay")
            env = dict(os.environ, VMON_REPO=d, VMON_OUT=d + "/out", PYTHONPATH=d, MPLBACKEND="Agg",
                       OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
                       VERIF_SEED="1", VMON_FRAC=str(a.frac))
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
                                    "tests"], cwd=d, env=env, capture_output=True, text=True, timeout=150)
                if r.returncode:
                    return name + " | tests"
            except subprocess.TimeoutExpired:
                return name + " | tests (time)"
            first = FIRST.get(f.split(".")[0], "").split()
            bad = []
            for p in first + [p for p in ALL if p not in first]:
                try:
                    r = subprocess.run([V + "/run", p, "--jobs", "1"], env=env, capture_output=True, text=True, timeout=1500)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = "time"
                if rc == 1:
                    return name + " | %s%s" % (p, " after " + " ".join(bad) if bad else "")
                if rc:
                    bad.append("%s=rc%s" % (p, rc))
            return name + " | SURVIVED " + " ".join(bad)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    with ThreadPoolExecutor(a.par) as ex:
        for r in ex.map(one, idx):
            print(r, flush=True)


if __name__ == "__main__":
    main()
