"""Queries about clusters and merging of clusters, over histories of steps and merges."""

import numpy as np
from hypothesis import strategies as st

from harness.core import LawSet, check
from props.C01 import clusters, make, problem, valid

LAWS = LawSet(
    "C02",
    assumptions=[
        "coordinates are strictly increasing and finite, heights finite (as a PDF is)",
        "between clusters exactly equidistant from a point either may be named the nearest",
    ],
)


@st.composite
def history(draw):
    p = draw(st.one_of(problem(1, 30), problem(8, 30)))
    if draw(st.booleans()):
        p["res"] = draw(st.sampled_from([0.0, 0.01, 0.1, 0.3]))
    n = len(p["x"])
    ops = draw(
        st.lists(
            st.one_of(
                st.tuples(st.just("step"), st.integers(1, 6)),
                st.tuples(st.just("combine"), st.integers(0, 8), st.integers(2, 5)),
                st.tuples(st.just("combine_all")),
                st.tuples(st.just("bad"), st.sampled_from(["dup", "far", "order", "gap", "mixed"]), st.integers(0, 20)),
                st.tuples(st.just("finish")),
                st.tuples(st.just("reset")),
            ),
            max_size=8,
        )
    )
    ops = draw(st.sampled_from([[], [("step", n // 3)], [("step", 2 * n // 3)], [("finish",)]])) + ops
    span = max(p["x"][-1] - p["x"][0], 1.0)
    where = draw(st.lists(st.floats(-0.25, 1.25), max_size=4))
    xs = [p["x"][0] + w * span for w in where]
    if n > 1:
        xs += [0.5 * (p["x"][i] + p["x"][i + 1]) for i in draw(st.lists(st.integers(0, n - 2), max_size=2))]
    xs += [p["x"][i] for i in draw(st.lists(st.integers(0, n - 1), max_size=2))]
    return {"p": p, "ops": [list(o) for o in ops], "at": xs}


def runs(cl):
    """Maximal runs (length >= 2) of clusters with no point between neighbours."""
    out, cur = [], [0]
    for k in range(1, len(cl)):
        if cl[k][0] - cl[k - 1][1] == 1:
            cur.append(k)
        else:
            out.append(cur)
            cur = [k]
    out.append(cur)
    return [r for r in out if len(r) >= 2]


def query(d, c):
    x, y, n = c["p"]["x"], c["p"]["y"], len(c["p"]["x"])
    cl = clusters(d)
    valid(cl, n)

    def dist(k, i):
        lo, hi = cl[k]
        return x[i] - x[hi] if i > hi else x[i] - x[lo] if i < lo else 0.0

    tol = 1e-12 * max(1.0, abs(x[0]), abs(x[-1]))
    for i in range(n):
        k, s = d.find_nearest_cluster(i)
        check(0 <= k < len(cl), "nearest cluster %s of %d", k, len(cl))
        best = min(abs(dist(j, i)) for j in range(len(cl)))
        check(abs(s - dist(k, i)) <= tol, "distance of point %d from cluster %s of %s given as %r", i, k, cl, s)
        check(abs(s) <= best + tol, "cluster %s at %r is not the nearest of point %d: %s", k, s, i, cl)
    for v in c["at"]:
        k, s = d.find_nearest_cluster2(v)
        near = min(abs(v - a) for a in x)
        cand = [i for i in range(n) if abs(v - x[i]) <= near + tol]
        check(
            any(abs(s - dist(k, i)) <= tol and abs(s) <= min(abs(dist(j, i)) for j in range(len(cl))) + tol for i in cand),
            "cluster nearest to x=%r given as %s at %r; clusters %s, x=%s", v, k, s, cl, x,
        )
    for k, (lo, hi) in enumerate(cl):
        s = d.cut(k)
        check((s.start, s.stop) == (lo, hi + 1) and s.step in (None, 1), "slice of cluster %d %s is %s", k, cl[k], s)
        full = (lo == 0 if k == 0 else cl[k - 1][1] == lo - 1) and (hi == n - 1 if k == len(cl) - 1 else cl[k + 1][0] == hi + 1)
        check(bool(d.cluster_is_full(k)) == full, "cluster %d of %s (n=%d) reported full=%s", k, cl, n, not full)
    if len(cl) >= 2:
        many = d.cut(list(range(len(cl))))
        check([(s.start, s.stop) for s in many] == [(lo, hi + 1) for lo, hi in cl], "slices %s of %s", many, cl)
    adj = [[int(k) for k in r] for r in d.find_adjacent_clusters()]
    check(adj == runs(cl), "adjacent clusters of %s given as %s", cl, adj)
    want = set()
    for lo, hi in cl:
        a = max(lo - 1, 0)
        want.add((float(np.mean(x[a : lo + 1])), float(np.mean(y[a : lo + 1]))))
        want.add((float(np.mean(x[hi : hi + 2])), float(np.mean(y[hi : hi + 2]))))
    got = np.array(d.cluster_boundaries(), dtype=float).reshape(-1, 2)
    w = np.array(sorted(want))
    check(len(got) <= len(w) and np.all(np.isfinite(got)), "boundaries %s, expected %s", got, w)
    ytol = 1e-9 * max(1.0, max(abs(v) for v in y))
    for b in w:
        check(np.any((abs(got[:, 0] - b[0]) <= 10 * tol) & (abs(got[:, 1] - b[1]) <= ytol)), "boundary %s missing from %s", b, got)
    check(np.all(np.diff(got[:, 0]) >= 0), "boundaries out of order: %s", got)
    check(clusters(d) == cl, "a query changed the clusters")
    return cl


def refused(d, comb, cl):
    try:
        d.combine_clusters(comb)
    except ValueError:
        pass
    else:
        check(False, "combining %s of %s succeeds", comb, cl)
    check(clusters(d) == cl, "refused to combine %s, but %s became %s", comb, cl, clusters(d))


@LAWS.law(history, quick=1200, rule="non-trivial: a merge succeeded or was refused with >= 2 clusters present")
def merging(c, note):
    """Through any history of steps and merges the boundaries, nearest clusters and adjacent groups are those of a list of ranges."""
    x, y, n = c["p"]["x"], c["p"]["y"], len(c["p"]["x"])
    d = make(c["p"])
    hit = False
    query(d, c)
    for op in c["ops"]:
        cl = clusters(d)
        r = runs(cl)
        if op[0] == "step":
            for _ in range(op[1]):
                before = clusters(d)
                try:
                    d.__next__()
                except StopIteration:
                    check(clusters(d) == before, "a refused step changed the clusters")
                    break
        elif op[0] == "finish":
            d.makeclusters()
            cl = clusters(d)
            check([i for lo, hi in cl for i in range(lo, hi + 1)] == list(range(n)), "finished clusters %s leave points out", cl)
        elif op[0] == "reset":
            d.reset_clusters()
            check(d == make(c["p"]), "a reset clustering differs from a new one")
        elif op[0] in ("combine", "combine_all"):
            if op[0] == "combine_all":
                comb = d.find_adjacent_clusters()
                which = r
            else:
                if not r:
                    continue
                run = r[op[1] % len(r)]
                start = min(op[1] // 2, len(run) - 2)
                which = [run[start : start + op[2]]]
                comb = which
            d.combine_clusters(comb)
            gone = {k: g[0] for g in which for k in g[1:]}
            want = []
            for k, (lo, hi) in enumerate(cl):
                if k in gone:
                    want[-1][1] = hi
                else:
                    want.append([lo, hi])
            check(clusters(d) == want, "combining %s of %s gives %s", which, cl, clusters(d))
            if which:
                hit = True
                note(op[0])
        elif op[0] == "bad":
            k = op[2] % len(cl)
            if op[1] == "dup":
                comb = [[k], [k]] if op[2] % 2 else [[k, k]]
            elif op[1] == "far" and len(cl) >= 3:
                k = op[2] % (len(cl) - 2)
                comb = [[k, k + 2]]
            elif op[1] == "order" and r:
                g = r[op[2] % len(r)]
                comb = [[g[1], g[0]]]
            elif op[1] in ("gap", "mixed"):
                gaps = [j for j in range(len(cl) - 1) if cl[j + 1][0] - cl[j][1] > 1]
                if not gaps:
                    continue
                g = gaps[op[2] % len(gaps)]
                comb = [[g, g + 1]]
                if op[1] == "mixed":
                    ok = [q for q in r if g not in q and g + 1 not in q]
                    comb = ok[:1] + comb
            else:
                continue
            refused(d, comb, cl)
            if len(cl) >= 2:
                hit = True
                note("refused " + op[1])
        query(d, c)
    check(np.array_equal(d.x, np.array(x, dtype=float)) and np.array_equal(d.y, np.array(y, dtype=float)), "the data changed")
    return hit
