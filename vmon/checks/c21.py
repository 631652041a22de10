"""Rules that place segment boundaries"""
import itertools

import numpy as np

from ..trans import case_list

PROPERTY = "C21"
RULE = ("random residual curves (smooth, spiky, flat stretches, zeros), residual vectors around "
        "the tolerance, width vectors and slope profiles given to the four placement rules; "
        "non-trivial = distinct inputs.")
ASSUMPTIONS = ["the area under a sampled curve is the trapezoidal one; inside an interval the "
               "position may follow the straight or the exact (quadratic) area"]
NEED = {"equal_area": 1000, "merge_split": 1000, "merges": 100, "splits": 100,
        "steepest": 500, "at_times_many": 300, "at_times_few": 300}


def cases(tier, seed):
    return case_list(tier, seed, salt=21, quick=1200, thorough=8000)


def run(case, mon):
    from .. import sut

    H = sut.mp.mpopt_h_adaptive
    rng = np.random.default_rng(case["seed"])
    for _ in range(12):
        equal_area(H, rng, mon)
        merge_split(H, rng, mon)
        steepest(H, rng, mon)
        at_times(H, rng, mon)


def curve(rng):
    n = int(rng.integers(2, 60))
    style = rng.integers(0, 6)
    x = np.linspace(0, 1, n)
    if style == 0:
        r = rng.uniform(0, 1, n)
    elif style == 1:
        r = 10.0 ** rng.uniform(-8, 2, n)
    elif style == 2:
        r = np.exp(-((x - rng.uniform()) / rng.uniform(0.02, 0.3)) ** 2)
    elif style == 3:
        r = np.zeros(n)
        r[rng.integers(0, n, int(rng.integers(1, 4)))] = rng.uniform(0.1, 1)
    elif style == 4:
        r = np.full(n, float(rng.uniform(0.1, 3)))
    else:
        r = rng.uniform(0, 1, n) * (rng.uniform(size=n) < 0.5)
        r[int(rng.integers(0, n))] = 1.0
    return r * 10.0 ** rng.uniform(-6, 6)


def equal_area(H, rng, mon):
    r = curve(rng)
    ns = int(rng.integers(1, 10))
    with mon.sut("get_roots_wrt_equal_area"):
        w = H.get_roots_wrt_equal_area(r.copy() if rng.uniform() < 0.7 else r.tolist(), ns)
    mon.event("equal_area")
    mon.nontrivial("ea", r, ns)
    judge_equal_area(mon, r, ns, w)
    if rng.uniform() < 0.2:
        # the same curve, another number of segments
        mon.event("asked_again")
        n2 = 1 + ns % 9
        with mon.sut("get_roots_wrt_equal_area"):
            w = H.get_roots_wrt_equal_area(r.copy(), n2)
        judge_equal_area(mon, r, n2, w)


def judge_equal_area(mon, r, ns, w):
    w = np.asarray(w, float).ravel()
    if not mon.check(len(w) == ns, "ea_count", "one width per segment", n=len(w), want=ns):
        return False
    ok = mon.check(np.all(np.isfinite(w)) and np.all(w >= -1e-12), "ea_neg", "widths", w=w)
    ok &= mon.check(abs(w.sum() - 1) < 1e-9, "ea_sum", "widths sum to one", w=w)
    if not ok:
        return False
    n = len(r)
    a = 0.5 * (r[1:] + r[:-1])
    A = np.concatenate([[0], np.cumsum(a)])
    c = np.clip(np.cumsum(w)[:-1], 0, 1) * (n - 1)
    for k, y in enumerate(c):
        i = int(min(max(np.floor(y), 0), n - 2))
        s = y - i
        lin = (A[i] + s * a[i]) / A[-1]
        quad = (A[i] + s * r[i] + 0.5 * s * s * (r[i + 1] - r[i])) / A[-1]
        t = (k + 1.0) / ns
        ok &= mon.check(min(abs(lin - t), abs(quad - t)) < 1e-8, "equal_area",
                        "area up to the boundary", boundary=k, area=lin, want=t, widths=w, curve=r)
    return bool(ok)


def merge_split(H, rng, mon):
    ns = int(rng.integers(1, 12))
    tol = float(10.0 ** rng.uniform(-6, 0))
    r = tol * 10.0 ** rng.uniform(-2, 2, ns)
    p = rng.uniform()
    r = np.where(rng.uniform(size=ns) < p, tol * rng.uniform(0, 0.99, ns), r)
    if rng.uniform() < 0.1:
        r[int(rng.integers(0, ns))] = tol
    w = rng.uniform(0.01, 1, ns)
    w = w / w.sum()
    with mon.sut("merge_split_segments_based_on_residuals"):
        new = H.merge_split_segments_based_on_residuals(
            list(r), w.copy() if rng.uniform() < 0.5 else w.tolist(), ERR_TOL=tol)
    mon.event("merge_split")
    mon.nontrivial("ms", r, w, tol)
    judge_merge_split(mon, r, w, tol, new)
    if rng.uniform() < 0.3:
        # one of residuals, widths and tolerance changed
        mon.event("asked_again")
        k = int(rng.integers(0, 3))
        if k == 0:
            r = r[::-1]
        elif k == 1:
            w = rng.uniform(0.01, 1, ns)
            w = w / w.sum()
        else:
            tol = float(tol * 10.0 ** rng.uniform(-2, 2))
        with mon.sut("merge_split_segments_based_on_residuals"):
            new = H.merge_split_segments_based_on_residuals(list(r), w.copy(), ERR_TOL=tol)
        judge_merge_split(mon, r, w, tol, new)


def judge_merge_split(mon, r, w, tol, new):
    ns = len(w)
    new = np.asarray(new, float).ravel()
    if not mon.check(len(new) == ns, "ms_count", "number of segments is kept", n=len(new)):
        return False
    ok = mon.check(np.all(np.isfinite(new)) and np.all(new > 0), "ms_pos", "positive widths", w=new)
    ok &= mon.check(abs(new.sum() - w.sum()) < 1e-9, "ms_sum", "total width is kept", w=new)
    groups = [(k, [i for i in g]) for k, g in
              itertools.groupby(range(ns), lambda i: r[i] < tol)]
    if all(k for k, _ in groups) or len(groups) == ns:
        return mon.check(np.allclose(new, w, rtol=0, atol=1e-12), "ms_keep",
                         "nothing to merge or split", got=new, want=w) and ok
    # boundaries of the groups are kept; merged groups are one segment, the others are
    # divided into equal pieces; every segment set free by merging is handed out
    c_new = np.concatenate([[0], np.cumsum(new)])
    pos = 0
    for k, g in groups:
        a, b = w[:g[0]].sum(), w[:g[-1] + 1].sum()
        j0 = int(np.argmin(abs(c_new - a)))
        j1 = int(np.argmin(abs(c_new - b)))
        ok &= mon.check(abs(c_new[j0] - a) < 1e-9 and abs(c_new[j1] - b) < 1e-9, "ms_union",
                        "group of segments keeps its place", group=g, want=(a, b), got=c_new,
                        residuals=r, tol=tol)
        if not ok:
            return False
        if k:
            mon.event("merges", len(g) > 1)
            ok &= mon.check(j1 - j0 == 1, "ms_merge", "segments below tolerance are merged",
                            pieces=j1 - j0, group=g, widths=new)
        else:
            mon.event("splits", j1 - j0 > len(g))
            ok &= mon.check(np.ptp(new[j0:j1]) < 1e-9, "ms_equal", "equal pieces",
                            pieces=new[j0:j1])
            ok &= mon.check(j1 > j0, "ms_empty", "at least one segment")
        pos += 1
    return bool(ok)


def steepest(H, rng, mon):
    n = int(rng.integers(3, 30))
    nu = int(rng.integers(1, 4))
    t = float(rng.uniform(-5, 5)) + np.cumsum(rng.uniform(0.01, 1, n))
    du = rng.uniform(-1, 1, (n, nu)) * 10.0 ** rng.uniform(-2, 2, (n, 1))
    th = float(10.0 ** rng.uniform(-3, 1.5)) if rng.uniform() < 0.9 else 0.0
    grid = np.linspace(t[0], t[-1], 12)[1:-1]
    for again in range(1 + (rng.uniform() < 0.3)):
        if again:
            # one of the arguments changed
            mon.event("asked_again")
            k = int(rng.integers(0, 3))
            if k == 0:
                th = float(np.median(np.sqrt((du ** 2).sum(axis=1))) * rng.uniform(0.2, 3))
            elif k == 1:
                du = rng.permutation(du)
            else:
                t = t + rng.uniform(0.1, 2)
        with mon.sut("compute_time_at_max_values"):
            out = H.compute_time_at_max_values(grid, t.copy(), du.copy(), threshold=th)
        mon.event("steepest")
        mon.nontrivial("st", t, du, th)
        out = np.asarray(out, float).ravel()
        nrm = np.sqrt((du ** 2).sum(axis=1))
        k = [i for i in range(1, n - 1) if nrm[i] >= th]
        k.sort(key=lambda i: -nrm[i])
        mon.close(out, t[k], "steepest", "times of the steepest slopes, steepest first", rtol=0, atol=0)


def at_times(H, rng, mon):
    ns = int(rng.integers(2, 10))
    t0 = float(rng.uniform(-5, 5))
    tf = t0 + float(10.0 ** rng.uniform(-1, 2))
    k = int(rng.integers(1, 15))
    g = (np.arange(k) + rng.uniform(0.05, 0.95, k)) / k
    times = t0 + (tf - t0) * np.clip(g, 1e-3, 1 - 1e-3)
    times = rng.permutation(times)
    for again in range(1 + (rng.uniform() < 0.3)):
        if again:
            mon.event("asked_again")
            k = int(rng.integers(0, 3))
            if k == 0:
                ns = 2 + (ns + 1) % 8
            elif k == 1:
                t0 = t0 - float(rng.uniform(0.1, 1))
            else:
                tf = tf + float(rng.uniform(0.1, 1))
        with mon.sut("compute_segment_widths_at_times"):
            w = H.compute_segment_widths_at_times(times.copy(), ns, t0, tf)
        mon.nontrivial("at", times, ns, t0, tf)
        judge_at_times(mon, times, ns, t0, tf, w)


def judge_at_times(mon, times, ns, t0, tf, w):
    w = np.asarray(w, float).ravel()
    if not mon.check(len(w) == ns, "at_count", "one width per segment", n=len(w)):
        return False
    ok = mon.check(np.all(np.isfinite(w)) and np.all(w > 0), "at_pos", "positive widths", w=w)
    ok &= mon.check(abs(w.sum() - 1) < 1e-9, "at_sum", "sum to one", w=w)
    if not ok:
        return False
    b = np.cumsum(w)[:-1]
    if len(times) >= ns - 1:
        mon.event("at_times_many")
        want = np.sort((times[:ns - 1] - t0) / (tf - t0))
        return mon.close(b, want, "at_boundaries", "boundaries at the first given times", rtol=0,
                         atol=1e-9)
    mon.event("at_times_few")
    s = np.sort((times - t0) / (tf - t0))
    j = [int(np.argmin(abs(b - x))) for x in s]
    if not mon.close(b[j], s, "at_boundaries", "every given time is a boundary", rtol=0, atol=1e-9,
                     widths=w):
        return False
    # the remaining boundaries divide the first and last stretch into equal pieces
    ok &= mon.check(j[-1] - j[0] == len(s) - 1, "at_between", "no other boundary between the times",
                    boundaries=b, times=s)
    ok &= mon.check(np.ptp(w[:j[0] + 1]) < 1e-9 and np.ptp(w[j[-1] + 1:]) < 1e-9, "at_ends",
                    "equal pieces at the ends", widths=w, times=s)
    return bool(ok)
