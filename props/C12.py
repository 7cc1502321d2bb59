"""Uncertainties and correlations of fitted parameters."""

import numpy as np
from hypothesis import strategies as st

from diffpy.srmise.modelcluster import ModelCovariance
from diffpy.srmise.modelparts import ModelParts
from diffpy.srmise.srmiseerrors import SrMiseFitError, SrMiseUndefinedCovarianceError
from harness import gen, ref
from harness import mc as clusters
from harness.core import LawSet, check
from props.C11 import mirror, model, parts, truth

LAWS = LawSet(
    "C12",
    assumptions=[
        "the reference for a peak fit is the inverse of J'J at the solution, scaled by the reduced chi-square, J by finite differences",
        "fits whose normal matrix has a condition number above 1e8 are only checked for consistency",
    ],
)


@st.composite
def anymodel(draw):
    c = draw(model((0, 3)))
    c["frees"] = draw(st.lists(st.booleans(), min_size=14, max_size=14))
    c["full"] = draw(st.booleans())
    n = 3 * len(c["peaks"]) + len(c["bp"])
    c["root"] = draw(st.lists(gen.floats(-2, 2).map(lambda v: round(v, 3)), min_size=n * n, max_size=n * n))
    c["threshold"] = draw(st.sampled_from([0.1, 0.5, 0.8, 0.95]))
    c["fmt"] = draw(st.sampled_from(["internal", "pwa", "mu_sigma_area", "default_output"]))
    c["parts"] = draw(st.sampled_from(["all", "peaks", "baseline", "first"]))
    c["back"] = draw(st.booleans())
    c["bare"] = len(c["peaks"]) > 1 and draw(st.integers(0, 3)) == 0
    if draw(st.booleans()):  # peaks of several functions
        for p in c["peaks"]:
            p["kind"] = draw(ref.KINDS)
    c["turn"] = draw(st.integers(0, 3))
    return c


def indices(ps):
    return [(i, j) for i, p in enumerate(ps) for j in range(len(p))]


def freeof(ps):
    return np.array([bool(ps[i].free[j]) for i, j in indices(ps)], dtype=bool)


def setup(c, turn=False):
    """A model, its full covariance matrix and a ModelCovariance holding it."""
    ps = parts(c, None, c["frees"])
    if c["bare"]:
        ps = ModelParts(ps[: len(c["peaks"])])  # peaks only
    if turn and len(ps):
        k = c["turn"] % len(ps)
        ps = ModelParts(list(ps[k:]) + list(ps[:k]))
    idx = indices(ps)
    n = len(idx)
    root = np.array(c["root"])[: n * n].reshape(n, n) if n else np.zeros((0, 0))
    v = root @ root.T
    free = freeof(ps) if n else np.zeros(0, dtype=bool)
    mc = ModelCovariance()
    if c["full"] or not n:
        given = v.copy()
        full = v
    else:
        given = v[np.ix_(free, free)]
        full = np.where(np.outer(free, free), v, 0.0)
    return ps, idx, free, given, full, mc


@LAWS.law(anymodel, quick=500, rule="non-trivial: >= 2 parameters, some fixed")
def access(c, note):
    """Values, uncertainties, covariances and correlations are those of the matrix given; fixed parameters have none."""
    ps, idx, free, given, full, mc = setup(c, True)
    n = len(idx)
    if not n:
        return False
    if given.shape[0] == 0:
        return False
    mc.setcovariance(ps, given)
    want = [float(ps[i].pars[j]) for i, j in idx]
    # the covariance keeps its own model and matrix
    ps[idx[0][0]].pars[idx[0][1]] += 1.0
    given += 7.0
    for k, ij in enumerate(idx):
        for key in (k, ij):
            check(mc.getvalue(key) == want[k], "value of %s: %r, expected %r", key, mc.getvalue(key), want[k])
            u = mc.getuncertainty(key)
            check(ref.close(u, np.sqrt(full[k, k]), 1e-12), "uncertainty of %s: %r, expected %r", key, u, np.sqrt(full[k, k]))
            check(mc.get(key) == (mc.getvalue(key), u), "get(%s): %s", key, mc.get(key))
            check(
                mc.prettypar(key) == "%.5e (%.5e)" % (want[k], np.sqrt(full[k, k])),
                "text of %s: %s",
                key,
                mc.prettypar(key),
            )
    expect = []
    for a in range(n):
        for b in range(n):
            v = mc.getcovariance(idx[a], b)
            check(ref.close(v, full[a, b], 1e-12, 1e-14), "covariance of %s, %s: %r, expected %r", idx[a], idx[b], v, full[a, b])
            check(v == mc.getcovariance(a, idx[b]) == mc.getcovariance(b, a), "covariance depends on the form of the indices")
            d = np.sqrt(full[a, a]) * np.sqrt(full[b, b])
            w = full[a, b] / d if d > 0 else 0.0
            k = mc.getcorrelation(idx[a], b)
            check(ref.close(k, w, 1e-9, 1e-12), "correlation of %s, %s: %r, expected %r", idx[a], idx[b], k, w)
            if a < b and abs(abs(w) - c["threshold"]) > 1e-9 and abs(w) > c["threshold"]:
                expect.append((idx[a], idx[b]))
    got = mc.correlationwarning(c["threshold"])
    near = any(abs(abs(mc.getcorrelation(a, b)) - c["threshold"]) <= 1e-9 for a in range(n) for b in range(a))
    if not near:
        check([tuple(g[:2]) for g in got] == expect, "strong correlations %s, expected %s", got, expect)
    for a, b, k in got:
        check(k == mc.getcorrelation(a, b), "reported correlation %r of %s, %s", k, a, b)
    lines = str(mc).splitlines()
    check("(" in str(mc) and len(lines) >= len([p for p in ps if len(p)]), "text %r", str(mc))
    mc.clear()
    for f in (lambda: mc.getcorrelation(0, 0), lambda: mc.getcovariance(0, 0), lambda: mc.correlationwarning()):
        try:
            f()
        except SrMiseUndefinedCovarianceError:
            continue
        raise AssertionError("a cleared covariance answers")
    try:
        mc.transform("internal", "pwa")
        raise AssertionError("a cleared covariance was transformed")
    except SrMiseUndefinedCovarianceError:
        pass
    check("undefined" in str(mc) and "undefined" in mc.prettypar(0), "a cleared covariance prints %s", mc)
    # matrices of the wrong size are refused
    sizes = [k for k in range(1, n + 2) if k not in (n, int(free.sum()))]
    for bad in [np.zeros((n, n + 1))] + [np.zeros((k, k)) for k in sizes]:
        try:
            mc.setcovariance(ps, bad)
        except ValueError:
            continue
        raise AssertionError("a matrix of shape %s was accepted for %d parameters" % (bad.shape, n))
    return n >= 2 and not free.all()


def convgrad(part, a, b):
    """Numerical derivatives of the conversion a -> b at the part's parameters (which are in format a)."""
    f = part.owner().transform_parameters
    p = np.array(part.pars, dtype=float)
    n = len(p)
    out = np.zeros((n, n))
    for j in range(n):
        cols = []
        for h in (1e-4, 5e-5):
            d = h * max(1.0, abs(p[j]))
            if a != "internal" and j == 1:
                d = h * p[j]
            q1, q2 = p.copy(), p.copy()
            q1[j] += d
            q2[j] -= d
            cols.append((np.array(f(q1, a, b)) - np.array(f(q2, a, b))) / (2 * d))
        out[:, j] = (4 * cols[1] - cols[0]) / 3
    return out


@LAWS.law(anymodel, quick=400, rule="non-trivial: a Gaussian/r peak converted to another format")
def transform(c, note):
    """Under a change of parameters V becomes G V G', part by part, with the values converted alike."""
    ps, idx, free, given, full, mc = setup(c)
    if not idx or given.shape[0] == 0:
        return False
    mc.setcovariance(ps, given)
    sel = {"all": range(len(ps)), "peaks": range(len(ps) - 1), "baseline": [len(ps) - 1], "first": [0]}[c["parts"]]
    kw = {} if c["parts"] == "all" else {"parts": c["parts"] if c["parts"] != "first" else [0]}
    n = len(idx)
    g = np.identity(n)
    vals = [np.array(p.pars) for p in ps]
    fmt = c["fmt"]
    done = False
    pos = 0
    for i, p in enumerate(ps):
        m = len(p)
        # Gaussian has no derivative of its conversions, and baselines have one format
        if i in sel and i < len(c["peaks"]) and c["peaks"][i]["kind"] == "R" and fmt != "internal":
            g[pos : pos + m, pos : pos + m] = convgrad(p, "internal", fmt)
            vals[i] = np.array(p.owner().transform_parameters(p.pars, "internal", fmt))
            done = True
        pos += m
    mc.transform("internal", fmt, **kw)
    # for which peak functions the covariance can be converted is not promised (those of Gaussian stay as they are)
    sure = [a for a in range(n) if idx[a][0] >= len(c["peaks"]) or c["peaks"][idx[a][0]]["kind"] == "R" or fmt == "internal"]
    want = g @ full @ g.T
    scale = np.sqrt(np.outer(np.abs(np.diag(want)), np.abs(np.diag(want)))) + 1e-300
    for a in sure:
        i, j = idx[a]
        check(ref.close(mc.getvalue(a), vals[i][j], 1e-12, 1e-14), "value of %s is %r, expected %r", idx[a], mc.getvalue(a), vals[i][j])
        for b in sure:
            v = mc.getcovariance(a, b)
            check(
                abs(v - want[a, b]) <= 1e-5 * scale[a, b] + 1e-10,
                "covariance of %s, %s is %r, expected %r",
                idx[a],
                idx[b],
                v,
                want[a, b],
            )
    if done and c["back"]:
        mc.transform(fmt if fmt != "default_output" else "pwa", "internal", **kw)
        for a in sure:
            for b in sure:
                v = mc.getcovariance(a, b)
                s = np.sqrt(abs(full[a, a] * full[b, b]))
                check(abs(v - full[a, b]) <= 1e-7 * s + 1e-10, "there and back: covariance of %s, %s is %r, was %r", idx[a], idx[b], v, full[a, b])
        note("back")
    return done


@st.composite
def linear(draw):
    d = draw(st.integers(0, 3))
    n = draw(st.integers(d + 3, 40))
    return {
        "degree": d,
        "r0": draw(gen.floats(-2, 5)),
        "dr": draw(st.sampled_from([0.1, 0.25])),
        "y": draw(st.lists(gen.floats(-9, 9).map(lambda v: round(v, 3)), min_size=n, max_size=n)),
        "e": draw(st.lists(gen.floats(0.2, 4), min_size=n, max_size=n)),
        "fixed": draw(st.lists(st.booleans(), min_size=4, max_size=4)),
        "vals": draw(st.lists(st.sampled_from([0.5, -1.0, 2.0]), min_size=4, max_size=4)),
        "rng": draw(st.one_of(st.none(), st.just(None), st.tuples(st.integers(0, 3), st.integers(0, 3)).map(list))),
    }


@LAWS.law(linear, quick=400, rule="non-trivial: degree >= 1")
def linear_fit(c, note):
    """The uncertainties of a fitted polynomial are those of weighted linear regression."""
    from diffpy.srmise.baselines.polynomial import Polynomial

    n, d = len(c["y"]), c["degree"]
    r = c["r0"] + c["dr"] * np.arange(n)
    y, e = np.array(c["y"]), np.array(c["e"])
    free = [not f for f in c["fixed"][: d + 1]]
    if not any(free):
        return False
    ps = ModelParts([Polynomial(d).actualize(c["vals"][: d + 1], free=free)])
    s = slice(None)
    if c["rng"] is not None:
        s = slice(c["rng"][0], n - c["rng"][1])
    m = len(r[s])
    if m <= sum(free):
        return False
    mc = ModelCovariance()
    try:
        ps.fit(r, y, e, s, 0, mc, "internal")
    except SrMiseFitError:
        note("failed")
        return False
    a = (np.array([r ** (d - i) for i in range(d + 1) if free[i]]) / e).T[s]
    normal = a.T @ a
    if np.linalg.cond(normal) > 1e7:
        note("ill-conditioned")
        return False
    chi = float(np.sum(((y - ps.value(r)) / e)[s] ** 2))
    want = np.linalg.inv(normal) * chi / (m - sum(free))
    if chi < 1e-9:
        note("exact")
        return False
    k = [i for i in range(d + 1) if free[i]]
    for i in range(d + 1):
        check(mc.getvalue(i) == ps[0].pars[i], "value %r of parameter %d, fitted %r", mc.getvalue(i), i, ps[0].pars[i])
        for j in range(d + 1):
            v = mc.getcovariance((0, i), (0, j))
            if free[i] and free[j]:
                w = want[k.index(i), k.index(j)]
                sc = np.sqrt(want[k.index(i), k.index(i)] * want[k.index(j), k.index(j)])
                check(abs(v - w) <= 1e-3 * sc, "covariance of %d, %d is %r, expected %r", i, j, v, w)
            else:
                check(v == 0, "a fixed parameter has covariance %r", v)
    return d >= 1


@st.composite
def noisy(draw):
    c = draw(model((1, 3)))
    if c["base"] in ("nano", "arb"):
        c["base"], c["bp"] = "poly1", c["bp"][:2]
    c["frees"] = draw(st.one_of(st.just([True] * 14), st.lists(st.sampled_from([True, True, False]), min_size=14, max_size=14)))
    c["shifts"] = draw(st.lists(gen.floats(-0.05, 0.05), min_size=14, max_size=14))
    c["noise"] = draw(st.sampled_from([0.02, 0.1, 0.3]))
    c["wave"] = draw(gen.floats(3, 40))
    c["err"] = draw(st.sampled_from([0.1, 1.0, 5.0]))
    c["rising"] = draw(st.booleans())
    c["flip"] = draw(st.one_of(st.just(0), st.integers(1, 255)))
    c["fmt"] = draw(st.sampled_from(["internal", "pwa", "mu_sigma_area", "default_output"]))
    return c


@LAWS.law(noisy, quick=250, rule="non-trivial: well-conditioned fit compared with the reference")
def peak_fit(c, note):
    """The covariance of fitted peaks is the scaled inverse of J'J at the solution, in the format asked for."""
    r = ref.grid(c["grid"])
    y = truth(c, r) + c["noise"] * np.sin(c["wave"] * r + np.arange(len(r)) ** 2)
    e = c["err"] * (np.ones(len(r)) if not c["rising"] else 1 + 0.02 * np.arange(len(r)))
    ps = parts(c, c["shifts"], c["frees"])
    idx = indices(ps)
    free = freeof(ps)
    if not free.any() or free.sum() >= len(r):
        return False
    mirror(ps, c["flip"])
    mc = ModelCovariance()
    try:
        ps.fit(r, y, e, None, 0, mc, c["fmt"])
    except SrMiseFitError:
        note("failed")
        return False
    # finite-difference jacobian in the physical parameters (position, width, area) by the reference formulas
    fitted = [np.array(p.owner().transform_parameters(p.pars, "internal", "pwa")) for p in ps[: len(c["peaks"])]]
    if any(not 0.1 < q[1] / t["max"] < 0.98 for q, t in zip(fitted, c["peaks"])) or any(q[2] < 0.2 for q in fitted):
        note("limit")
        return False
    kinds = [p["kind"] for p in c["peaks"]]
    theta = np.concatenate(fitted + [np.array(ps[-1].pars, dtype=float)])

    def curve(t):
        out = np.polyval(t[3 * len(kinds) :], r) if len(t) > 3 * len(kinds) else np.zeros(len(r))
        for i, k in enumerate(kinds):
            out = out + ref.peakvalue(k, *t[3 * i : 3 * i + 3], r)
        return out

    cols = []
    for a in range(len(theta)):
        h = 1e-5 * max(1.0, abs(theta[a])) if a % 3 or a >= 3 * len(kinds) else 1e-5 * theta[a + 1]
        t1, t2 = theta.copy(), theta.copy()
        t1[a] += h
        t2[a] -= h
        cols.append((curve(t1) - curve(t2)) / (2 * h) / e)
    j = np.array(cols).T[:, free]
    sc = np.sqrt(np.sum(j**2, axis=0))
    if (sc < 1e-12).any() or np.linalg.cond(j / sc) > 1e4:
        note("ill-conditioned")
        return False
    chi = float(np.sum(((y - curve(theta)) / e) ** 2))
    cov = np.linalg.inv((j / sc).T @ (j / sc)) / np.outer(sc, sc) * chi / (len(r) - free.sum())
    full = np.zeros((len(theta), len(theta)))
    full[np.ix_(free, free)] = cov
    vals = theta.copy()
    # to the format of the peaks in the covariance
    g = np.identity(len(theta))
    for i, t in enumerate(c["peaks"]):
        kind = c["fmt"] if kinds[i] == "R" else "internal"  # Gaussian keeps its parameters
        if kinds[i] == "G":
            note("gaussian")
        a = 3 * i + 1
        w, m = theta[a], t["max"]
        if kind == "internal":
            vals[a] = np.arcsin(2 * w * w / m**2 - 1)
            g[a, a] = (4 * w / m**2) / np.sqrt(1 - (2 * w * w / m**2 - 1) ** 2)
        elif kind == "mu_sigma_area":
            vals[a] = w / ref.S2F
            g[a, a] = 1 / ref.S2F
    if any(k == "G" for k in kinds) and c["fmt"] != "internal":
        return False  # which formats their covariance supports is not promised
    want = g @ full @ g.T
    for a in range(len(idx)):
        check(abs(mc.getvalue(a) - vals[a]) <= 1e-6 * (1 + abs(vals[a])), "value of %s is %r, fitted %r", idx[a], mc.getvalue(a), vals[a])
        for b in range(len(idx)):
            v = mc.getcovariance(a, b)
            check(
                abs(v - want[a, b]) <= 2e-2 * np.sqrt(want[a, a] * want[b, b]) + 1e-14,
                "covariance of %s, %s is %r, expected %r",
                idx[a],
                idx[b],
                v,
                want[a, b],
            )
    return True


@st.composite
def swapped(draw):
    c = draw(clusters.cluster((1, 4)))
    c["good"] = draw(st.booleans())
    if c["good"]:  # start near the truth, in another order, with a needless peak
        c["model"] = [dict(p, pos=p["pos"] + draw(gen.floats(-0.2, 0.2)), removable=True) for p in c["truth"]]
        if draw(st.booleans()):
            c["model"].append(dict(draw(clusters.peakspec(2.2, 6.0)), area=0.01))
    c["order"] = draw(st.permutations(range(len(c["model"]))))
    c["fitbaseline"] = draw(st.booleans())
    c["fmt"] = draw(st.sampled_from(["internal", "default_output"]))
    return c


@LAWS.law(swapped, quick=150, rule="non-trivial: a fit after which the order or number of peaks is another, or >= 2 peaks")
def cluster_fit(c, note):
    """The covariance of the fit of a cluster lists the parts of the fitted model, in its order, each with its own uncertainties."""
    m = clusters.make(c)[0]
    from diffpy.srmise.peaks.base import Peaks

    m.model = Peaks([m.model[i] for i in c["order"]])
    withbase = c["fitbaseline"] and m.baseline is not None and m.baseline.npars(count_fixed=False) > 0
    direct = ModelParts(m.model.copy())
    y = m.y_data
    if withbase:
        direct.append(m.baseline.copy())
    elif m.baseline is not None:
        y = y - m.valuebl(m.r_data)
    start = [p["position"] for p in m.model]
    cov = ModelCovariance()
    q = m.fit(fitbaseline=c["fitbaseline"], cov=cov, cov_format=c["fmt"])
    if q is None or cov.cov is None:
        note("no improvement")
        return False
    one = ModelCovariance()
    try:
        direct.fit(m.r_data, y, m.y_error, m.slice, 0, one, c["fmt"])
    except SrMiseFitError:
        return False
    if one.cov is None:
        return False
    ps = list(m.model) + ([m.baseline] if withbase else [])
    n = 0
    for i, p in enumerate(ps):
        match = [k for k, d in enumerate(direct) if len(d) == len(p) and np.allclose(d.pars, p.pars, rtol=1e-6, atol=1e-8)]
        if len(match) != 1:
            return False
        for j in range(len(p)):
            if c["fmt"] == "internal":
                check(cov.getvalue((i, j)) == p.pars[j], "parameter %d of part %d is %r, fitted %r", j, i, cov.getvalue((i, j)), p.pars[j])
            a, b = cov.get((i, j)), one.get((match[0], j))
            check(ref.close(a[0], b[0], 1e-5, 1e-8), "parameter %d of part %d is %r, fitted alone %r", j, i, a, b)
            check(a[1] == b[1] or abs(a[1] - b[1]) <= 1e-3 * b[1] + 1e-9 or not b[1] == b[1], "parameter %d of part %d is %r, fitted alone %r", j, i, a, b)
            n += 1
    lengths = cov.cov.shape[0]
    check(lengths == n, "%d parameters in the covariance, %d in the model", lengths, n)
    if len(m.model) < len(start):
        note("fewer peaks")
    if sorted(start) != start:
        note("another order")
    return len(m.model) >= 2 or len(m.model) < len(start)
