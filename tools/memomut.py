"""tools/memomut.py [--n N] [--seed S] [--frac F] [--fn name] [--list]: mutants that keep or spoil data:
  state     a method answers from a cache that knows its arguments but not the state of the object
  class     the cache is shared by all objects
  no:<arg>  the cache does not look at one argument
  sort:<arg> the method sorts this argument in place
Log as in condmut.py."""
import argparse, ast, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from automut import B, FIRST, TREE, V
from condmut import own

HELP = '''
import os as _os, numpy as _mnp, functools as _mft, inspect as _minsp
_mlogged = [0]
def _mlog():
    p = _os.environ.get("VMON_HITS")
    if p and _mlogged[0] < 3:
        _mlogged[0] += 1
        with open(p, "a") as fh:
            fh.write("x")
def _mkey(v):
    if isinstance(v, dict):
        return tuple(sorted((str(k), _mkey(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return tuple(_mkey(x) for x in v)
    if isinstance(v, _mnp.ndarray):
        return ("a", v.shape, tuple(_mkey(x) for x in v.ravel()))
    if callable(v):
        return id(v)
    return str(v)
def _memo(kind, drop):
    def deco(f):
        raw = f.__func__ if isinstance(f, (classmethod, staticmethod)) else f
        names = list(_minsp.signature(raw).parameters)
        shared = {}
        def call(*a, **k):
            d = dict(zip(names, a)); d.update(k)
            me = d.pop("self", None)
            if kind == "sort":
                r = raw(*a, **k)
                v = d.get(drop)
                if isinstance(v, (list, _mnp.ndarray)):
                    try:
                        o = repr(v); v.sort()
                        if repr(v) != o: _mlog()
                    except Exception: pass
                return r
            d.pop(drop, None)
            key = tuple(sorted((n, _mkey(x)) for n, x in d.items()))
            mem = shared
            if kind != "class" and me is not None and not isinstance(me, type):
                mem = me.__dict__.setdefault("_memo_" + raw.__name__, {})
            if key not in mem:
                mem[key] = raw(*a, **k)
            else:
                try:
                    if repr(raw(*a, **k)) != repr(mem[key]): _mlog()
                except Exception:
                    _mlog()
            return mem[key]
        call = _mft.wraps(raw)(call)
        return type(f)(call) if isinstance(f, (classmethod, staticmethod)) else call
    return deco
'''


def mutants():
    out = []

    def visit(n, path):
        for c in n.body:
            if isinstance(c, ast.ClassDef):
                visit(c, path + [c.name])
            elif isinstance(c, ast.FunctionDef) and path:
                f = ".".join(path + [c.name])
                args = [a.arg for a in c.args.args if a.arg != "self"]
                dec = [d.id for d in c.decorator_list if isinstance(d, ast.Name)]
                line = min([c.lineno] + [d.lineno for d in c.decorator_list])
                if c.name == "__init__":
                    out.extend((f, line, "sort", a) for a in args)
                    continue
                if not dec:
                    out.append((f, line, "state", None))
                    out.append((f, line, "class", None))
                for a in args:
                    out.append((f, line, "no", a))
                    out.append((f, line, "sort", a))

    visit(TREE, [])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--n", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--frac", type=float, default=0.5)
    ap.add_argument("--fn", default="")
    ap.add_argument("--kind", default="")
    ap.add_argument("--par", type=int, default=8)
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    ms = [m for m in mutants() if a.fn in m[0] and a.kind in m[2]]
    if a.n:
        ms = random.Random(a.seed).sample(ms, min(a.n, len(ms)))
    print("chosen", len(ms), flush=True)
    if a.list:
        for m in ms:
            print(m)
        return

    def one(m):
        f, line, kind, arg = m
        name = "%s:%d %s %s" % (f, line, kind, arg or "")
        L = B.decode().split("\n")
        L.insert(line - 1, "    @_memo(%r, %r)" % (kind, arg))
        txt = "\n".join(L)
        k = txt.index("\nclass mpopt:")
        txt = txt[:k] + HELP + txt[k:]
        d = tempfile.mkdtemp(prefix="mm_", dir="/tmp")
        try:
            for k in ("mpopt", "tests", "examples"):
                shutil.copytree("/repo/" + k, d + "/" + k, ignore=shutil.ignore_patterns("__pycache__"))
            open(d + "/mpopt/mpopt.py", "w").write(txt)
            os.makedirs(d + "/out/evidence"); os.makedirs(d + "/out/replay")
            env = dict(os.environ, VMON_REPO=d, VMON_OUT=d + "/out", PYTHONPATH=d, MPLBACKEND="Agg",
                       OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
                       VERIF_SEED="1", VMON_FRAC=str(a.frac))
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
                                    "tests"], cwd=d, env=env, capture_output=True, text=True, timeout=200)
                if r.returncode:
                    return name + " | tests " + r.stdout.strip().split("\n")[-1][:60]
            except subprocess.TimeoutExpired:
                return name + " | tests (time)"
            bad, eff = [], []
            for p in own(f):
                h = d + "/hits_" + p
                try:
                    rc = subprocess.run([V + "/run", p, "--jobs", "1"], env=dict(env, VMON_HITS=h), capture_output=True, text=True, timeout=1500).returncode
                except subprocess.TimeoutExpired:
                    rc = "time"
                if os.path.exists(h):
                    eff.append(p)
                if rc == 1:
                    return name + " | %s%s" % (p, " after " + " ".join(bad) if bad else "")
                if rc:
                    bad.append("%s=rc%s" % (p, rc))
            return name + " | SURVIVED eff=%s %s" % (",".join(eff) or 0, " ".join(bad))
        finally:
            shutil.rmtree(d, ignore_errors=True)

    with ThreadPoolExecutor(a.par) as ex:
        for r in (f.result() for f in as_completed([ex.submit(one, m) for m in ms])):
            print(r, flush=True)


if __name__ == "__main__":
    main()
