"""Clustering of a data sequence: order of visits, partition, resolution, restart."""

import numpy as np
from hypothesis import strategies as st

from diffpy.srmise.dataclusters import DataClusters
from harness import gen
from harness.core import LawSet, check

LAWS = LawSet(
    "C01",
    assumptions=[
        "coordinates are strictly increasing and finite, heights finite (as a PDF is)",
        "between clusters exactly equidistant from a point either may take it",
    ],
)


@st.composite
def problem(draw, minlen=0, maxlen=40):
    x = draw(gen.rising(minlen, maxlen))
    n = len(x)
    ykind = draw(st.sampled_from(["ties", "ints", "floats", "peaky"]))
    if ykind == "ties":
        y = draw(st.lists(st.integers(-2, 2).map(float), min_size=n, max_size=n))
    elif ykind == "ints":
        y = [float(v) for v in draw(st.permutations(range(n)))]
    elif ykind == "floats":
        y = draw(st.lists(st.floats(-1e3, 1e3, allow_subnormal=False), min_size=n, max_size=n))
    else:
        period = draw(st.integers(2, 12))
        y = [float(-abs((i % period) - period // 2)) + 0.01 * i for i in range(n)]
    span = max(x[-1] - x[0], 1.0) if n else 1.0
    res = draw(
        st.one_of(
            st.just(0.0),
            st.sampled_from([0.125, 0.25, 0.5, 1.0, 2.0, 3.0]),
            st.floats(0.0, span),
            st.just(2 * span),
        )
    )
    if n >= 2 and draw(st.booleans()):
        # a resolution equal to a distance between two data points: the border case
        i = draw(st.integers(0, n - 2))
        j = draw(st.integers(i + 1, n - 1))
        res = x[j] - x[i]
    return {"x": x, "y": y, "res": res}


def make(c):
    return DataClusters(np.array(c["x"], dtype=float), np.array(c["y"], dtype=float), c["res"])


def clusters(d):
    return [[int(a), int(b)] for a, b in d.clusters]


def valid(cl, n):
    """Disjoint runs of indices in increasing order."""
    prev = -1
    for lo, hi in cl:
        check(prev < lo <= hi < n, "clusters %s are not ordered disjoint index ranges (n=%d)", cl, n)
        prev = hi


def successors(cl, i, x, res):
    """Every clustering that may follow from taking in point i (outside all clusters)."""
    left = max([k for k in range(len(cl)) if cl[k][1] < i], default=None)
    right = min([k for k in range(len(cl)) if cl[k][0] > i], default=None)
    dl = x[i] - x[cl[left][1]] if left is not None else np.inf
    dr = x[cl[right][0]] - x[i] if right is not None else np.inf
    near = min(dl, dr)
    # differences of small binary fractions are exact; otherwise allow for rounding
    exact = all(float(v * 1024).is_integer() and abs(v) < 1e6 for v in x + [res])
    tol = 0.0 if exact else 1e-12 * max(1.0, abs(x[0]), abs(x[-1]))
    out = []
    if near <= res + tol:
        if dl <= near + tol:
            new = [list(c) for c in cl]
            new[left][1] = i
            out.append((new, left))
        if dr <= near + tol:
            new = [list(c) for c in cl]
            new[right][0] = i
            out.append((new, right))
    if near > res - tol:
        k = 0 if left is None else left + 1
        out.append(([list(c) for c in cl[:k]] + [[i, i]] + [list(c) for c in cl[k:]], k))
    return out


@LAWS.law(problem, quick=1500, rule="a run is non-trivial when it ends with >= 2 clusters and some cluster has >= 2 points")
def stepwise(c, note):
    """Every intermediate state of step-by-step clustering is that of an independent model of the rule."""
    x, y, n = c["x"], c["y"], len(c["x"])
    d = make(c)
    if n == 0:
        check(len(d.clusters.ravel()) == 0, "clusters of no data")
        try:
            d.__next__()
        except StopIteration:
            raise AssertionError("empty data reported as clustered")
        except Exception:
            note("empty")
            return False
        raise AssertionError("clustering no data succeeds")
    order = [int(i) for i in d.data_order]
    check(sorted(order) == list(range(n)), "data order %s is no permutation", order)
    ys = [y[i] for i in order]
    check(all(a <= b for a, b in zip(ys, ys[1:])), "data order is not sorted by height: %s", ys)
    cl = clusters(d)
    check(cl == [[order[-1], order[-1]]], "clustering does not start at the highest point: %s", cl)
    steps = 0
    for got in d:
        steps += 1
        check(steps <= n, "more steps than points")
        check(got is d, "iteration yields something else")
        inside = set(i for lo, hi in cl for i in range(lo, hi + 1))
        outside = [i for i in range(n) if i not in inside]
        check(outside, "a step although all points are clustered")
        p = int(d.lastpoint_idx)
        check(p in outside, "the step took point %d, which was clustered already", p)
        top = max(y[i] for i in outside)
        check(y[p] == top, "took a point of height %r before one of height %r", y[p], top)
        new = clusters(d)
        valid(new, n)
        allowed = successors(cl, p, x, c["res"])
        check(
            (new, int(d.lastcluster_idx)) in allowed,
            "from %s, point %d at x=%r (res %r) leads to %s (changed cluster %s), allowed: %s",
            cl, p, x[p], c["res"], new, d.lastcluster_idx, allowed,
        )
        cl = new
    check([i for lo, hi in cl for i in range(lo, hi + 1)] == list(range(n)), "finished clusters %s do not cover 0..%d", cl, n - 1)
    try:
        d.__next__()
    except StopIteration:
        pass
    else:
        raise AssertionError("a finished clustering takes another step")
    check(clusters(d) == cl, "stepping a finished clustering changes it")
    note("clusters=%s" % min(len(cl), 4))
    return len(cl) >= 2 and any(hi > lo for lo, hi in cl)


@LAWS.law(problem, quick=600, rule="non-trivial: >= 2 clusters at the end")
def batch_equals_steps(c, note):
    """makeclusters (from any intermediate point) ends where stepping ends; a reset starts afresh."""
    n = len(c["x"])
    if n == 0:
        return False
    a = make(c)
    a.makeclusters()
    b = make(c)
    k = n // 2
    for _ in range(k):
        try:
            b.__next__()
        except StopIteration:
            break
    b.makeclusters()
    check(clusters(a) == clusters(b), "%s after makeclusters, %s after stepping", clusters(a), clusters(b))
    check(a == b and not (a != b), "equal histories give unequal objects")
    b.reset_clusters()
    fresh = make(c)
    check(b == fresh, "a reset clustering differs from a new one")
    check(n == 1 or a != fresh, "a finished clustering equals an unstarted one")
    b.makeclusters()
    check(clusters(a) == clusters(b), "clustering again after a reset gives %s, not %s", clusters(b), clusters(a))
    x = np.array(c["x"])
    check(np.array_equal(a.x, x) and np.array_equal(a.y, np.array(c["y"])), "clustering changed its data")
    return len(clusters(a)) >= 2


@LAWS.law(
    lambda: st.tuples(problem(1), st.sampled_from([0.5, 2.0, 4.0, 1024.0]), st.sampled_from([0.25, 8.0]), st.integers(-64, 64)).map(list),
    quick=400,
    rule="non-trivial: >= 2 clusters",
)
def scaling(c, note):
    """Distances scale with the resolution; only the order of heights matters."""
    p, sx, sy, shift = c
    if len(set(p["y"])) < len(p["y"]):
        note("ties")
        return False
    a = make(p)
    a.makeclusters()
    q = {"x": [v * sx for v in p["x"]], "y": [v * sy + 0.0 for v in p["y"]], "res": p["res"] * sx}
    b = make(q)
    b.makeclusters()
    check(clusters(a) == clusters(b), "scaled by %s: %s instead of %s", sx, clusters(b), clusters(a))
    return len(clusters(a)) >= 2


@LAWS.law(
    lambda: st.fixed_dictionaries(
        {"n": st.integers(0, 8), "m": st.integers(0, 8), "res": st.sampled_from([-1e-9, -1.0, -1e300, 0.0, 1.0])}
    ),
    quick=150,
    rule="non-trivial: an invalid argument",
)
def rejects(c, note):
    """Sequences of different lengths and negative resolutions are refused."""
    bad = c["n"] != c["m"] or c["res"] < 0
    try:
        DataClusters(np.arange(c["n"], dtype=float), np.arange(c["m"], dtype=float), c["res"])
    except ValueError:
        check(bad, "valid arguments refused")
    else:
        check(not bad, "invalid arguments accepted: %s", c)
    return bad


@LAWS.law(
    lambda: st.fixed_dictionaries(
        {
            "p": problem(1),
            "steps": st.integers(0, 20),
            "what": st.sampled_from(["same", "x", "y", "res", "step", "other", "steps_back"]),
            "at": st.integers(0, 100),
            "by": st.sampled_from([0.5, 1.0, 1e-3]),
        }
    ),
    quick=250,
    rule="non-trivial: the clusterings differ in one respect",
)
def equality(c, note):
    """Clusterings are equal exactly when their data, resolution and progress are."""
    p, n = c["p"], len(c["p"]["x"])

    def steps(d, k):
        done = 0
        for _ in range(k):
            try:
                d.__next__()
            except StopIteration:
                break
            done += 1
        return done

    a, q = make(p), dict(p, x=list(p["x"]), y=list(p["y"]))
    k = c["steps"]
    steps(a, k)
    what, i = c["what"], c["at"] % n
    note(what)
    if what == "x":
        q["x"] = q["x"][:i] + [v + c["by"] for v in q["x"][i:]]
    elif what == "y":
        q["y"][i] += c["by"]
    elif what == "res":
        q["res"] += c["by"]
    b = make(q)
    if what == "other":
        for o in (None, 3, [a], "x", object()):
            check(not (a == o) and a != o, "a clustering equals %r", o)
        return False
    if what == "steps_back":
        steps(b, k + 2)
        b.reset_clusters()
    steps(b, k)
    if what == "step":
        before = clusters(b)
        if not steps(b, 1):
            return False
        check(clusters(b) != before, "a step which takes in no point")
    equal = what in ("same", "steps_back")
    check(bool(a == b) == equal and bool(b == a) == equal and bool(a != b) != equal, "clusterings which differ in %s are %s", what, "equal" if a == b else "unequal")
    return not equal
