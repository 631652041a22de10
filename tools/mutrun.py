"""tools/mutrun.py [-a] [name...]: apply mutants to scratch copies, run checks. -a: all checks"""
import os, subprocess, sys, json, shutil, tempfile, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutants import M
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allc = "-a" in args
notest = "-n" in args
args = [a for a in args if not a.startswith("-")]
src = open("/repo/mpopt/mpopt.py").read()
for name, props, old, new, nth in M:
    if args and name not in args:
        continue
    parts = src.split(old)
    if len(parts) <= nth:
        print(name, "OLD TEXT NOT FOUND", len(parts) - 1, flush=True)
        continue
    txt = old.join(parts[:nth]) + new + old.join(parts[nth:])
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        shutil.copytree("/repo/mpopt", d + "/mpopt", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree("/repo/tests", d + "/tests", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree("/repo/examples", d + "/examples", ignore=shutil.ignore_patterns("__pycache__"))
        open(d + "/mpopt/mpopt.py", "w").write(txt)
        env = dict(os.environ, VMON_REPO=d, VMON_OUT=d + "/out", PYTHONPATH=d, MPLBACKEND="Agg",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
        os.makedirs(d + "/out/evidence"); os.makedirs(d + "/out/replay")
        t = "-"
        if not notest:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
                                "tests"], cwd=d, env=env, capture_output=True, text=True)
            t = "tests ok" if r.returncode == 0 else "TESTS FAIL"
        res = []
        ids = sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(V + "/vmon/checks/c*.py")) if allc else props
        for p in ids:
            r = subprocess.run([V + "/run", p], env=env, capture_output=True, text=True)
            if r.returncode or not allc:
                res.append("%s=%s" % (p, {0: "MISS", 1: "caught"}.get(r.returncode, "rc%d" % r.returncode)))
        print(name, t, " ".join(res), flush=True)
    finally:
        shutil.rmtree(d)
