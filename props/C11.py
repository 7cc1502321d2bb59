"""Least-squares fits of model parts."""

import numpy as np
from hypothesis import strategies as st

from diffpy.srmise.baselines.arbitrary import Arbitrary
from diffpy.srmise.baselines.nanospherical import NanoSpherical
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.modelparts import ModelParts
from diffpy.srmise.peaks.base import Peak, Peaks
from diffpy.srmise.srmiseerrors import SrMiseFitError
from harness import gen, ref
from harness.core import LawSet, check

LAWS = LawSet(
    "C11",
    assumptions=[
        "recovery is claimed for starting points near the truth (10% of width and area) and separated peaks",
        "a fit that reports failure (SrMiseFitError) makes no promise on its quality",
    ],
)


@st.composite
def model(draw, npeaks=(0, 3)):
    """Separated peaks and a baseline, sampled finely."""
    k = draw(st.integers(*npeaks))
    r0 = draw(gen.floats(2.0, 6.0))
    kind = draw(ref.KINDS)
    peaks = []
    pos = r0 + 0.6
    for _ in range(k):
        w = draw(gen.floats(0.15, 0.6))
        peaks.append({"kind": kind, "max": 0.7, "pos": pos, "width": w, "area": draw(gen.floats(1, 20))})
        pos += draw(gen.floats(0.9, 1.6))
    b = draw(st.sampled_from(["none", "poly0", "poly1", "poly2", "nano", "arb"]))
    pars = {"none": 0, "poly0": 1, "poly1": 2, "poly2": 3, "nano": 2, "arb": 2}[b]
    bp = draw(st.lists(gen.floats(-1, 1), min_size=pars, max_size=pars))
    if b == "nano":
        bp = [0.2 + abs(bp[0]), pos * 0.7 + 3.0 + abs(bp[1])]  # the peaks lie within the sphere
    n = int((pos - r0) / 0.03) + 1
    return {"peaks": peaks, "base": b, "bp": bp, "grid": {"r0": r0, "dr": 0.03, "n": max(n, 20)}, "seed": draw(st.integers(0, 10**6))}


def basepart(c, pars, free=None):
    b = c["base"]
    if b == "nano":
        return NanoSpherical().actualize(pars, free=free)
    if b == "arb":
        return Arbitrary(2, lambda p, x: p[0] * np.cos(x) + p[1]).actualize(pars, free=free)
    return Polynomial({"none": -1, "poly0": 0, "poly1": 1, "poly2": 2}[b]).actualize(pars, free=free)


def basevalue(c, r):
    if c["base"] == "nano":
        return ref.nano(c["bp"][0], c["bp"][1], r)
    if c["base"] == "arb":
        return c["bp"][0] * np.cos(r) + c["bp"][1]
    return np.polyval(c["bp"], r) if c["bp"] else np.zeros(len(r))


def truth(c, r):
    y = basevalue(c, r)
    for p in c["peaks"]:
        y = y + ref.peakvalue(p["kind"], p["pos"], p["width"], p["area"], r)
    return y


def parts(c, shifts=None, frees=None):
    """The model, each parameter shifted by a relative amount; frees: flags of each parameter in turn."""
    out = ModelParts()
    pfs = {k: ref.make_pf(k, 0.7) for k in {p["kind"] for p in c["peaks"]}}
    it = iter(shifts or [0.0] * 100)
    fr = iter(frees or [True] * 100)
    for p in c["peaks"]:
        a, b, d = next(it), next(it), next(it)
        w = min(p["width"] * (1 + b), 0.69)
        out.append(pfs[p["kind"]].actualize([p["pos"] + a * p["width"], w, p["area"] * (1 + d)], "pwa", free=[next(fr), next(fr), next(fr)]))
        out[-1].truth = p
    bp = [v * (1 + next(it)) for v in c["bp"]]
    out.append(basepart(c, bp, free=[next(fr) for _ in bp]))
    if c.get("order"):
        # parts in any order, some of them not removable
        k = c["order"] % len(out)
        out[:] = list(out[k:]) + list(out[:k])
        for i, p in enumerate(out):
            p.removable = (c["order"] >> (i + 2)) % 2 == 0
    return out


def mirror(ps, flip):
    """Equivalent internal parameters outside of the preferred range: negative area, width angle mirrored."""
    for i, p in enumerate(ps):
        if isinstance(p, Peak):
            if flip & 1 << 2 * i and p.free[2]:
                p.pars[2] *= -1
            if flip & 2 << 2 * i and p.free[1]:
                p.pars[1] = np.pi - p.pars[1]


def chi2(ps, r, y, e, rng=None):
    s = slice(None) if rng is None else slice(*rng)
    return float(np.sum((((y - ps.value(r)) / e)[s]) ** 2))


@st.composite
def noisy(draw):
    c = draw(model())
    c["order"], c["flip"] = draw(st.one_of(st.just(0), st.integers(1, 99))), draw(st.one_of(st.just(0), st.integers(1, 255)))
    n = c["grid"]["n"]
    c["shifts"] = draw(st.lists(gen.floats(-0.4, 0.4), min_size=14, max_size=14))
    c["frees"] = draw(st.one_of(st.just([True] * 14), st.lists(st.booleans(), min_size=14, max_size=14)))
    c["noise"] = draw(st.sampled_from([0.0, 0.05, 0.5, 2.0]))
    c["wave"] = draw(gen.floats(3, 40))
    c["err"] = draw(st.sampled_from([0.1, 1.0, 5.0]))
    c["rising"] = draw(st.booleans())
    a = draw(st.integers(0, n // 2))
    c["rng"] = draw(st.one_of(st.none(), st.just([a, draw(st.integers(min(a + 15, n), n))])))
    c["junk"] = draw(st.sampled_from([10.0, -1000.0]))
    return c


def dataset(c):
    r = ref.grid(c["grid"])
    y = truth(c, r) + c["noise"] * np.sin(c["wave"] * r + np.arange(len(r)) ** 2)
    e = c["err"] * (np.ones(len(r)) if not c["rising"] else 1 + 0.02 * np.arange(len(r)))
    return r, y, e


def fit(ps, r, y, e, rng):
    try:
        ps.fit(r, y, e, None if rng is None else slice(*rng))
        return True
    except SrMiseFitError:
        return False


@LAWS.law(noisy, quick=400, rule="non-trivial: the fit lowered chi-square by > 1%")
def descent(c, note):
    """A fit never worsens chi-square, never touches fixed parameters or the data, and ends within the physical range."""
    r, y, e = dataset(c)
    ps = parts(c, c["shifts"], c["frees"])
    mirror(ps, c["flip"])
    before = [np.array(p.pars) for p in ps]
    flags = [list(p.free) for p in ps]
    c0 = chi2(ps, r, y, e, c["rng"])
    keep = r.copy(), y.copy(), e.copy()
    ok = fit(ps, r, y, e, c["rng"])
    check(all(np.array_equal(a, b) for a, b in zip(keep, (r, y, e))), "fitting changed the data")
    check([list(p.free) for p in ps] == flags, "fitting changed which parameters are fixed")
    for p, b in zip(ps, before):
        check(np.all(np.isfinite(p.pars)), "parameters %s", p.pars)
        for j in range(len(b)):
            check(p.free[j] or p.pars[j] == b[j], "fixed parameter changed from %r to %r", b[j], p.pars[j])
    if not ok:
        note("failed")
        return False
    c1 = chi2(ps, r, y, e, c["rng"])
    check(c1 <= c0 * (1 + 1e-9) + 1e-9, "chi-square rose from %r to %r", c0, c1)
    for p in ps:
        if not isinstance(p, Peak):
            continue
        q = p.owner().transform_parameters(p.pars, "internal", "pwa")
        check(0 <= q[1] <= p.truth["max"] * (1 + 1e-9) and q[2] >= 0, "peak %s", q)
        check(p.pars[2] >= 0, "area %r", p.pars[2])
        check(-np.pi / 2 - 1e-9 <= p.pars[1] <= np.pi / 2 + 1e-9, "width parameter %r is not in the preferred range", p.pars[1])
    if not any(c["frees"][: sum(len(p) for p in ps)]):
        check(all(np.array_equal(p.pars, b) for p, b in zip(ps, before)), "a model without free parameters changed")
    if c["rng"] is not None and any(c["frees"][: sum(len(p) for p in ps)]):
        y2, e2 = y.copy(), e.copy()
        y2[: c["rng"][0]] += c["junk"]
        y2[c["rng"][1] :] -= c["junk"]
        e2[: c["rng"][0]] *= 0.01
        qs = parts(c, c["shifts"], c["frees"])
        mirror(qs, c["flip"])
        fit(qs, r, y2, e2, c["rng"])
        check(all(np.array_equal(p.pars, q.pars) for p, q in zip(ps, qs)), "data outside the range changed the fit")
        note("range")
    # a second fit from the solution stays at least as good
    fit(ps, r, y, e, c["rng"])
    c2 = chi2(ps, r, y, e, c["rng"])
    check(c2 <= c1 * (1 + 1e-7) + 1e-9, "fitting again raised chi-square from %r to %r", c1, c2)
    return c1 < 0.99 * c0


@st.composite
def exact(draw):
    c = draw(model((0, 3)))
    c["order"], c["flip"] = draw(st.one_of(st.just(0), st.integers(1, 99))), draw(st.one_of(st.just(0), st.integers(1, 255)))
    c["shifts"] = draw(st.lists(gen.floats(-0.1, 0.1), min_size=14, max_size=14))
    c["frees"] = draw(st.one_of(st.just([True] * 14), st.lists(st.sampled_from([True, True, False]), min_size=14, max_size=14)))
    c["err"] = draw(st.sampled_from([0.1, 1.0, 7.0]))
    return c


@LAWS.law(exact, quick=300, rule="non-trivial: >= 1 peak and the starting point was off")
def recovery(c, note):
    """From a starting point nearby, a fit of noise-free data finds the true parameters; fixed ones stay true."""
    r = ref.grid(c["grid"])
    y = truth(c, r)
    total = 3 * len(c["peaks"]) + len(c["bp"])
    frees = c["frees"][:total]
    shifts = [s if f else 0.0 for s, f in zip(c["shifts"], frees)]
    ps = parts(c, shifts, frees)
    mirror(ps, c["flip"])
    check(fit(ps, r, y, c["err"] * np.ones(len(r)), None), "a fit of noise-free data from nearby failed")
    if c["peaks"] and min(p["pos"] for p in c["peaks"]) - r[0] < 0.5:
        return False
    top = max(1.0, float(np.max(np.abs(y))))
    err = float(np.max(np.abs(ps.value(r) - y)))
    check(err <= 1e-4 * top, "the fit misses noise-free data by %r (of %r)", err, top)
    for p in ps:
        if not isinstance(p, Peak):
            continue
        t = p.truth
        q = p.owner().transform_parameters(p.pars, "internal", "pwa")
        w = [t["pos"], t["width"], t["area"]]
        check(np.all(np.abs(q - w) <= 2e-3 * np.array([t["width"], t["width"], t["area"]])), "peak %s recovered as %s", w, q)
    return bool(c["peaks"]) and any(shifts)


@st.composite
def trials(draw):
    c = draw(noisy())
    c["trials"] = draw(st.integers(1, 40))
    return c


@LAWS.law(trials, quick=200, rule="non-trivial: more trials were needed, or >= 1 peak")
def limited(c, note):
    """A fit limited to some trials either says that it did not finish, or has found what an unlimited one finds."""
    r, y, e = dataset(c)
    ps = parts(c, [0.5 * s for s in c["shifts"]], c["frees"])
    c0 = chi2(ps, r, y, e)
    try:
        ps.fit(r, y, e, ntrials=c["trials"])
    except SrMiseFitError:
        note("out of trials")
        return True
    c1 = chi2(ps, r, y, e)
    fit(ps, r, y, e, None)
    c2 = chi2(ps, r, y, e)
    check(c1 - c2 <= 0.05 * (c0 - c2) + 1e-6, "chi-square %r, %r after %d trials which were said to be enough, then %r", c0, c1, c["trials"], c2)
    return bool(c["peaks"])


@st.composite
def linear(draw):
    d = draw(st.integers(0, 3))
    n = draw(st.integers(d + 2, 40))
    return {
        "degree": d,
        "r0": draw(gen.floats(-2, 5)),
        "y": draw(st.lists(gen.floats(-9, 9), min_size=n, max_size=n)),
        "e": draw(st.lists(gen.floats(0.2, 4), min_size=n, max_size=n)),
        "start": draw(st.lists(gen.floats(-2, 2).map(lambda v: round(v, 3)), min_size=d + 1, max_size=d + 1)),
        "fixed": draw(st.one_of(st.none(), st.integers(0, d))),
    }


@LAWS.law(linear, quick=500, rule="non-trivial: degree >= 1")
def linear_fit(c, note):
    """The fit of a polynomial is the weighted linear least-squares solution."""
    n, d = len(c["y"]), c["degree"]
    r = c["r0"] + 0.1 * np.arange(n)
    y, e = np.array(c["y"]), np.array(c["e"])
    free = [i != c["fixed"] for i in range(d + 1)]
    ps = ModelParts([Polynomial(d).actualize(c["start"], free=free)])
    if not any(free):
        ps.fit(r, y, e)
        check(list(ps[0].pars) == c["start"], "a fixed polynomial changed to %s", ps[0].pars)
        return False
    if not fit(ps, r, y, e, None):
        note("failed")
        return False
    a = np.array([r ** (d - i) for i in range(d + 1)]).T
    fixed = sum((a[:, i] * c["start"][i] for i in range(d + 1) if not free[i]), np.zeros(n))
    af = a[:, [i for i in range(d + 1) if free[i]]]
    best = np.linalg.lstsq(af / e[:, None], (y - fixed) / e, rcond=None)[0]
    want = fixed + af @ best
    got = ps.value(r)
    c_best = float(np.sum(((y - want) / e) ** 2))
    c_got = float(np.sum(((y - got) / e) ** 2))
    check(c_got <= c_best * (1 + 1e-5) + 1e-6, "chi-square %r, the least is %r", c_got, c_best)
    check(np.all(np.abs(got - want) <= 1e-2 * (1 + np.max(np.abs(want)))), "fitted curve %s, expected %s", got, want)
    return d >= 1


@LAWS.law(
    lambda: st.fixed_dictionaries({"peaks": st.integers(0, 4), "n": st.integers(1, 14), "fixed": st.integers(0, 3)}),
    quick=150,
    rule="non-trivial: more free parameters than points",
)
def points(c, note):
    """A fit needs more points than free parameters."""
    pf = ref.make_pf("G", 0.7)
    free = [i >= c["fixed"] for i in range(3)]
    ps = Peaks([pf.actualize([2.0 + i, 0.5, 1.0], "pwa", free=free) for i in range(c["peaks"])])
    if not len(ps):
        return False
    k = sum(free) * c["peaks"]
    r = 2.0 + 0.25 * np.arange(c["n"])
    before = [np.array(p.pars) for p in ps]
    try:
        ps.fit(r, ps.value(r), np.ones(len(r)))
    except SrMiseFitError as e:
        check(k >= len(r) or "Fit did not succeed" in str(e), "%d free parameters, %d points: %s", k, len(r), e)
        if k >= len(r):
            check(all(np.array_equal(b, p.pars) for b, p in zip(before, ps)), "a refused fit changed parameters")
        return k >= len(r)
    check(k < len(r), "%d free parameters fitted to %d points", k, len(r))
    return False
