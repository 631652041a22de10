"""Runs one check: ./run <id> [--tier T] [--seed N] [--replay FILE]"""
import argparse
import collections
import importlib
import json
import multiprocessing as mp_
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VMON_OUT", HERE)  # development aid: write results elsewhere
EVID = os.path.join(OUT, "evidence")
REPLAY = os.path.join(OUT, "replay")
KNOWN = os.path.join(HERE, "known_findings.txt")


def load_known(prop):
    """{key: description} of the known findings of a property"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("known: property=%s " % prop):
                rest = line.split("key=", 1)[1].strip()
                key, _, what = rest.partition(" ")
                out[key] = what
    return out


_MOD = None


def _quiet():
    """The code under test prints a lot, at C level too"""
    n = os.open(os.devnull, os.O_WRONLY)
    os.dup2(n, 1)
    os.dup2(n, 2)


def _init(modname):
    global _MOD
    _quiet()
    _MOD = importlib.import_module(modname)
    import warnings

    warnings.filterwarnings("ignore")


def _alarm(sig, frame):
    from vmon.monitor import CaseTimeout

    raise CaseTimeout("no progress within the case limit")


def _run_case(arg):
    idx, case = arg
    from vmon.monitor import Abort, CaseTimeout, Monitor

    mon = Monitor(_MOD.PROPERTY, case)
    err = None
    t = time.monotonic()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(getattr(_MOD, "CASE_LIMIT", 240) * 0.5))
    try:
        from vmon import sut

        sut.reset()
        _MOD.run(case, mon)
    except Abort:
        pass
    except CaseTimeout:
        mon.inconclusive.append("case ran out of time outside the code under test")
    except (TypeError, ValueError, IndexError, KeyError, AttributeError, ArithmeticError, RuntimeError,
            NotImplementedError) as e:
        err = traceback.format_exc()
        if mon.sut_done:
            # the oracle could not read what the code under test returned (None for a list, too few
            # entries, another type): it does not have the form the property is about
            mon.fail("malformed", "results of '%s' cannot be judged: %s: %s" % (
                mon.sut_done, type(e).__name__, str(e)[:200]), trace=err[-1200:])
            err = None
    except Exception:
        err = traceback.format_exc()
    finally:
        signal.alarm(0)
        try:
            from vmon import sut

            sut.reset()
            if "matplotlib.pyplot" in sys.modules:
                sys.modules["matplotlib.pyplot"].close("all")
        except Exception:
            pass
    return dict(
        idx=idx, events=dict(mon.events), oracle=mon.oracle, sigs=mon.sigs,
        violations=mon.violations, samples=mon.samples,
        inconclusive=mon.inconclusive, err=err, t=time.monotonic() - t,
    )


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--cases", type=int, default=None)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    modname = "vmon.checks." + a.prop.lower()
    t0 = time.monotonic()

    out_fd = os.dup(1)
    out = os.fdopen(out_fd, "w")

    def say(s):
        out.write(s + "\n")
        out.flush()

    err_fd = os.fdopen(os.dup(2), "w")
    mod = None
    ctx = mp_.get_context("fork")

    # The case list is computed in a child: the parent never imports casadi
    def case_child(conn):
        try:
            _quiet()
            m = importlib.import_module(modname)
            if a.replay:
                cs = [json.load(open(a.replay))["case"]]
            else:
                cs = list(m.cases(tier, a.seed))
            conn.send(dict(
                cases=cs, prop=m.PROPERTY, rule=m.RULE, assumptions=m.ASSUMPTIONS,
                need=getattr(m, "NEED", {}), limit=getattr(m, "CASE_LIMIT", 240),
                known=True,
            ))
        except Exception:
            conn.send(dict(error=traceback.format_exc()))
        conn.close()

    pc, cc = ctx.Pipe()
    p = ctx.Process(target=case_child, args=(cc,))
    p.start()
    cc.close()
    try:
        meta = pc.recv()
    except EOFError:
        meta = dict(error="case generation died")
    p.join()
    if "error" in meta:
        # The code under test cannot even be imported / the harness is broken
        err_fd.write(meta["error"] + "\n")
        say("INCONCLUSIVE property=%s case generation failed" % a.prop)
        return 2
    prop, cases = meta["prop"], meta["cases"]
    if a.cases:
        cases = cases[: a.cases]
    frac = float(os.environ.get("VMON_FRAC", 0))  # development aid: part of the cases
    if frac:
        cases = cases[:: max(1, round(1 / frac))]
        meta["need"] = {}
    wall = float(os.environ.get("VMON_WALL", 780 if tier == "quick" else 6 * 3600))

    events = collections.Counter()
    sigs, samples, viol, errs, incon = set(), [], [], [], []
    oracle = done = 0
    slow = []
    pool = ctx.Pool(a.jobs, initializer=_init, initargs=(modname,), maxtasksperchild=400)
    it = pool.imap_unordered(_run_case, list(enumerate(cases)), chunksize=1)
    stopped = None
    last = time.monotonic()
    for _ in range(len(cases)):
        try:
            r = it.next(timeout=min(meta["limit"], max(5, wall - (time.monotonic() - t0))))
        except mp_.TimeoutError:
            stopped = "watchdog: no case finished within %ds" % meta["limit"]
            break
        except StopIteration:
            break
        done += 1
        events.update(r["events"])
        oracle += r["oracle"]
        sigs |= r["sigs"]
        if len(samples) < 4 and r["samples"]:
            samples.append(dict(case=cases[r["idx"]], observed=r["samples"]))
        for v in r["violations"]:
            v["case"] = cases[r["idx"]]
            v["idx"] = r["idx"]
            viol.append(v)
        incon += [(r["idx"], w) for w in r["inconclusive"]]
        if r["err"]:
            errs.append((r["idx"], r["err"]))
        slow.append((r["t"], r["idx"]))
        if len(viol) > 400:
            stopped = "enough violations"
            break
        if time.monotonic() - t0 > wall:
            stopped = "time budget used up"
            break
    pool.terminate()
    pool.join()

    viol.sort(key=lambda v: v["idx"])
    known = load_known(prop)
    listed = {}
    fresh = []
    for v in viol:
        if v["key"] in known:
            listed.setdefault(v["key"], []).append(v)
        else:
            fresh.append(v)
    for key, vs in sorted(listed.items()):
        say("KNOWN-FINDING: property=%s %s (%d occurrences)" % (prop, known[key], len(vs)))

    missing = [k for k, n in meta["need"].items() if events.get(k, 0) < n]
    if a.replay:
        missing = []
    cov = dict(
        evaluations=done,
        distinct_nontrivial=len(sigs),
        rule=meta["rule"],
        samples=samples or [dict(case=c) for c in cases[:2]],
        oracle_evaluations=oracle,
        events=dict(sorted(events.items())),
        cases_planned=len(cases),
        inconclusive_cases=len(incon),
        known_finding_hits={k: len(v) for k, v in listed.items()},
    )
    if stopped:
        cov["stopped"] = stopped
    evid = dict(
        property=prop, tier=tier, seed=a.seed, level="exploration", coverage=cov,
        assumptions=meta["assumptions"], wall_s=round(time.monotonic() - t0, 2),
        violations=len(fresh),
    )
    if not a.replay:
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, prop + ".json"), "w") as f:
            json.dump(evid, f, indent=1, default=str)

    if a.verbose:
        slow.sort(reverse=True)
        say("events %s" % dict(events))
        say("oracle=%d sigs=%d slowest=%s" % (oracle, len(sigs), slow[:4]))
        for i, w in incon[:5]:
            say("inconclusive case %s: %s" % (i, w))
    if fresh:
        os.makedirs(REPLAY, exist_ok=True)
        v = fresh[0]
        path = os.path.join(REPLAY, "%s.json" % prop)
        with open(path, "w") as f:
            json.dump(dict(property=prop, case=v["case"], key=v["key"], msg=v["msg"],
                           witness=v["witness"], tier=tier, seed=a.seed,
                           all_keys=dict(collections.Counter(x["key"] for x in fresh)),
                           rerun="./run %s --replay %s" % (prop, path)), f, indent=1,
                      default=str)
        by = collections.Counter(x["key"] for x in fresh)
        for k, n in by.most_common(6):
            e = next(x for x in fresh if x["key"] == k)
            say("  [%s] x%d: %s %s" % (k, n, e["msg"], json.dumps(e["witness"], default=str)[:600]))
        say("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, HERE)))
        return 1
    if errs:
        err_fd.write("harness errors: %d\n%s\n" % (len(errs), errs[0][1]))
        say("INCONCLUSIVE property=%s harness error in case %d" % (prop, errs[0][0]))
        return 2
    if missing or (done == 0) or (stopped and done < 0.5 * len(cases)) or (
        incon and len(incon) > 0.2 * done + 1
    ):
        say("INCONCLUSIVE property=%s observed too little: missing=%s done=%d/%d %s, inconclusive=%d"
            % (prop, missing, done, len(cases), stopped or "", len(incon)))
        return 2
    say("OK property=%s %s cases=%d oracle=%d distinct=%d %.1fs"
        % (prop, tier, done, oracle, len(sigs), time.monotonic() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
