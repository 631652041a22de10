"""tools/seedcheck.py [-n] [-a] [id...]: confirm planted bugs of /verif/seeded in scratch copies.
Demonstration without / with the patch, the repository's tests with the patch, the check of the
bug's property (-a: all checks; -n: no tests).  Prints one line per bug."""
import json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
args = sys.argv[1:]
ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir(S))


def one(i):
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    out = []
    try:
        for k in ("mpopt", "tests", "examples"):
            shutil.copytree("/repo/" + k, d + "/" + k, ignore=shutil.ignore_patterns("__pycache__"))
        env = dict(os.environ, VMON_REPO=d, VMON_OUT=d + "/out", PYTHONPATH=d, MPLBACKEND="Agg",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
        os.makedirs(d + "/out/evidence"); os.makedirs(d + "/out/replay")
        run = lambda *c, **k: subprocess.run(c, cwd=d, env=env, capture_output=True, text=True, **k)
        demo = tempfile.mkdtemp(prefix="demo_", dir=d)
        for f in os.listdir(os.path.join(S, i)):
            if not f.endswith((".diff", ".json")):
                shutil.copy(os.path.join(S, i, f), demo)
        r = run("bash", demo + "/demo.sh")
        out.append("demo0=%d" % r.returncode + ("" if r.returncode == 0 else "!! " + (r.stdout + r.stderr)[-300:]))
        r2 = run("patch", "-p1", "-i", os.path.join(S, i, "patch.diff"))
        if r2.returncode:
            return i, out + ["PATCH FAILED " + r2.stdout[-200:]]
        r = run("bash", demo + "/demo.sh")
        out.append("demo1=%d" % r.returncode + ("!!" if r.returncode == 0 else ""))
        if "-v" in args:
            out.append((r.stdout + r.stderr)[-200:].strip())
        if "-n" not in args:
            r = run("/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests")
            out.append("tests=%s" % ("ok" if r.returncode == 0 else "FAIL!!"))
        prop = json.load(open(os.path.join(S, i, "meta.json")))["property"]
        ps = [prop] if "-a" not in args else ["C%02d" % k for k in range(1, 33)]
        for p in ps:
            r = run(V + "/run", p)
            if r.returncode or p == prop:
                out.append("%s%s=%s" % ("*" if p == prop else "", p, {0: "MISS", 1: "caught"}.get(r.returncode, "rc%d" % r.returncode)))
        return i, out
    finally:
        shutil.rmtree(d)


from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as ex:
    for i, o in ex.map(one, ids):
        print(i, " ".join(o), flush=True)
