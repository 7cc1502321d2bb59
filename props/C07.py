"""Estimates of peak and baseline parameters from data."""

import numpy as np
from hypothesis import strategies as st

from diffpy.srmise.baselines.arbitrary import Arbitrary
from diffpy.srmise.baselines.fromsequence import FromSequence
from diffpy.srmise.baselines.nanospherical import NanoSpherical
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.peaks.terminationripples import TerminationRipples
from diffpy.srmise.srmiseerrors import SrMiseEstimationError
from harness import gen, ref
from harness.core import LawSet, check

LAWS = LawSet(
    "C07",
    assumptions=["data rise strictly in r, with at least one nonzero spread of heights unless flat"],
)


def pwa(pf, pars):
    return [float(v) for v in pf.transform_parameters(pars, "internal", "pwa")]


@st.composite
def sampled(draw):
    """A Gaussian sampled symmetrically about its centre."""
    n = draw(st.integers(1, 20))
    m = draw(st.sampled_from([0.7, 2.0, 5.0]))
    frac = draw(gen.floats(0.05, 0.95))
    return {
        "kind": draw(ref.KINDS),
        "max": m,
        "pos": draw(gen.floats(8.0, 30.0)),
        "width": m * frac,
        "height": draw(gen.floats(0.1, 50.0)),
        "n": n,
        "reach": draw(gen.floats(0.3, 2.0)),
        "ripples": draw(st.booleans()),
        "neg": draw(st.lists(st.integers(0, 40), max_size=4)),
        "negval": draw(st.sampled_from([0.0, -1.0, -1e-3])),
    }


@LAWS.law(sampled, quick=700, rule="every case: a symmetric Gaussian of 3 to 41 points")
def recovery(c, note):
    """The centre and width of a Gaussian sampled about its centre are recovered, whatever negative points surround it."""
    pf = ref.make_pf(c["kind"], c["max"])
    use = TerminationRipples(pf, 20.0) if c["ripples"] else pf
    reach = c["reach"] * c["width"]
    r = c["pos"] + np.linspace(-reach, reach, 2 * c["n"] + 1)
    y = c["height"] * np.exp(-((r - c["pos"]) ** 2) / (2 * (c["width"] / ref.S2F) ** 2))
    want_area = c["height"] * c["width"] / ref.S2F * np.sqrt(2 * np.pi) * (c["pos"] if c["kind"] == "R" else 1)
    # points which are not positive carry no information
    step = r[1] - r[0]
    k = len(c["neg"])
    r2 = np.concatenate([r[0] - step * np.arange(k, 0, -1), r, r[-1] + step * np.arange(1, k + 1)])
    y2 = np.concatenate([np.full(k, c["negval"]), y, np.full(k, c["negval"])])
    rk, yk = r2.copy(), y2.copy()
    got = pwa(pf, use.estimate_parameters(r2, y2))
    check(np.array_equal(rk, r2) and np.array_equal(yk, y2), "estimation changed the data")
    check(abs(got[0] - c["pos"]) <= 1e-7 * c["pos"], "position %r, expected %r", got[0], c["pos"])
    check(abs(got[1] - c["width"]) <= 1e-5 * c["width"], "width %r, expected %r", got[1], c["width"])
    check(abs(got[2] - want_area) <= 1e-5 * want_area, "area %r, expected %r", got[2], want_area)
    return True


@st.composite
def data(draw):
    n = draw(st.integers(0, 25))
    g = {"r0": draw(gen.floats(1.0, 20.0)), "dr": draw(st.sampled_from([0.01, 0.02, 0.1, 0.5])), "n": n}
    kind = draw(st.sampled_from(["any", "positive", "flat", "peak", "negative", "few"]))
    if kind == "any":
        y = draw(st.lists(gen.floats(-5, 20), min_size=n, max_size=n))
    elif kind == "positive":
        y = draw(st.lists(gen.floats(0.5, 20), min_size=n, max_size=n))
    elif kind == "flat":
        y = [draw(gen.floats(0.25, 9))] * n
    elif kind == "negative":
        y = [-1.0] * n
    elif kind == "few":
        y = [-1.0] * n
        for i in draw(st.lists(st.integers(0, max(n - 1, 0)), max_size=4)):
            if i < n:
                y[i] = 1.0 + i
    else:
        a = draw(gen.floats(0, 1))
        y = [float(0.2 + np.exp(-((i - a * n) ** 2) / (0.1 * n * n + 1))) for i in range(n)]
    return {"kind": draw(ref.KINDS), "max": draw(st.sampled_from([0.1, 0.7, 3.0])), "grid": g, "y": y, "scale": draw(st.sampled_from([0.25, 2.0, 64.0]))}


@LAWS.law(data, quick=1200, rule="non-trivial: >= 3 positive points of different heights")
def valid(c, note):
    """An estimate exists exactly for >= 3 positive points, is finite, within the data and the maximum width, and scales."""
    r, y = ref.grid(c["grid"]), np.array(c["y"], dtype=float)
    pf = ref.make_pf(c["kind"], c["max"])
    pos = y > 0
    try:
        e = pf.estimate_parameters(r, y)
    except SrMiseEstimationError:
        check(np.sum(pos) < 3, "no estimate from %d positive points", np.sum(pos))
        note("refused")
        return False
    check(np.sum(pos) >= 3, "an estimate from %d positive points", np.sum(pos))
    check(np.shape(e) == (3,) and np.all(np.isfinite(e)), "estimate %s", e)
    p, w, a = pwa(pf, e)
    rr, yy = r[pos], y[pos]
    check(rr[0] <= p <= rr[-1], "position %r outside the positive data [%r, %r]", p, rr[0], rr[-1])
    check(0 <= w <= c["max"] * (1 + 1e-9), "width %r outside [0, %r]", w, c["max"])
    top = yy.max()
    h = a / (w / ref.S2F * np.sqrt(2 * np.pi)) / (p if c["kind"] == "R" else 1.0) if w > 0.02 * c["max"] else top
    check(abs(h - top) <= 1e-6 * top, "height %r of the estimated peak, the data reach %r", h, top)
    check(a >= 0, "area %r", a)
    e2 = pf.estimate_parameters(r, y * c["scale"])
    check(ref.close(e2[:2], e[:2], 1e-9) and abs(e2[2] - e[2] * c["scale"]) <= 1e-9 * abs(e2[2]), "data times %r: %s instead of %s", c["scale"], e2, e)
    # Gaussian and Gaussian/r agree up to the division by r
    other = ref.make_pf("G" if c["kind"] == "R" else "R", c["max"])
    o = other.estimate_parameters(r, y)
    ratio = 1 / p if c["kind"] == "R" else p
    check(ref.close(o[:2], e[:2], 1e-9) and abs(o[2] - a * ratio) <= 1e-8 * abs(o[2]), "Gaussian and Gaussian/r estimate %s and %s", e, o)
    # interior and exterior points which are not positive make no difference
    f = pf.estimate_parameters(rr, yy)
    check(ref.close(f, e, 1e-12), "with points that are not positive %s, without %s", e, f)
    if yy.min() == top:
        check(abs(p - 0.5 * (rr[0] + rr[-1])) <= 1e-9 * p, "flat data: position %r is not the middle", p)
        note("flat")
        return False
    if c["kind"] == "G":
        # mirrored data give the mirrored estimate
        s = r[0] + r[-1]
        g = pf.estimate_parameters((s - r)[::-1], y[::-1])
        check(abs(g[0] - (s - p)) <= 1e-8 * (abs(s) + 1), "mirrored data: position %r, expected %r", g[0], s - p)
        check(abs(g[2] - e[2]) <= 1e-6 * abs(e[2]), "mirrored data: area %r, expected %r", g[2], e[2])
    note("estimated")
    return True


@LAWS.law(
    lambda: st.fixed_dictionaries({"kind": ref.KINDS, "base": st.sampled_from([None, None, -1, 0, 1]), "n": st.integers(0, 9), "m": st.integers(0, 9)}),
    quick=100,
    rule="non-trivial: sequences of different lengths",
)
def lengths(c, note):
    """Data of different lengths are refused."""
    peak = c["base"] is None
    pf = ref.make_pf(c["kind"], 1.0) if peak else Polynomial(c["base"])
    if c["n"] == c["m"]:
        return False
    try:
        pf.estimate_parameters(np.arange(1.0, c["n"] + 1), np.arange(1.0, c["m"] + 1))
    except SrMiseEstimationError if peak else ValueError:
        return True
    check(False, "sequences of lengths %d and %d accepted", c["n"], c["m"])


@st.composite
def based(draw):
    return {
        "degree": draw(st.sampled_from([1, 1, 1, 1, -3, -1, 0, 2, 3])),
        "slope": draw(st.one_of(gen.floats(-3, -0.01), gen.floats(-3, -0.01), gen.floats(0, 3))),
        "grid": draw(ref.rgrid(0.1, 5.0, 4, 60)),
        "bumps": draw(st.lists(gen.floats(0.5, 9), max_size=5)),
        "fail": draw(st.booleans()),
    }


@LAWS.law(based, quick=500, rule="non-trivial: a linear baseline below positive features")
def baselines(c, note):
    """Linear baselines through the origin are found under positive peaks; other degrees as documented."""
    r = ref.grid(c["grid"])
    base = c["slope"] * r
    y = base.copy()
    n = len(r)
    if c["slope"] < 0:
        # features leave the lowest points, at large r, alone
        for i, b in enumerate(c["bumps"]):
            k = (7 * i) % (n // 2)
            y[k] += b
    p = Polynomial(c["degree"])
    nt = False
    if c["degree"] > 1:
        try:
            p.estimate_parameters(r, y)
        except NotImplementedError:
            pass
        else:
            check(False, "an estimate of a polynomial of degree %d", c["degree"])
    else:
        yk = y.copy()
        e = p.estimate_parameters(r, y)
        check(np.array_equal(y, yk), "estimation changed the data")
        if c["degree"] < 0:
            check(len(e) == 0, "parameters %s of no baseline", e)
        elif c["degree"] == 0:
            check(list(e) == [0.0], "constant baseline estimated as %s", e)
        else:
            check(len(e) == 2 and abs(e[0] - c["slope"]) <= 1e-9 * (1 + abs(c["slope"])) and e[1] == 0, "slope %r estimated as %s", c["slope"], e)
            nt = c["slope"] < 0 and bool(c["bumps"])
            part = p.actualize(e)
            check(ref.close(part.value(r), base, 1e-9, 1e-9), "the estimated baseline differs from the true one")
    try:
        NanoSpherical().estimate_parameters(r, y)
    except NotImplementedError:
        pass
    else:
        check(False, "an estimate of a spherical baseline")
    check(len(FromSequence([0.0, 1, 2, 3, 4], [1.0, 2, 1, 2, 1]).estimate_parameters(r, y)) == 0, "a sequence has no parameters to estimate")

    def est(x, v):
        if c["fail"]:
            raise RuntimeError("no")
        return np.array([x[0], v[-1]])

    arb = Arbitrary(2, lambda q, x: q[0] + q[1] * x, estimatef=est)
    try:
        e = arb.estimate_parameters(r, y)
    except SrMiseEstimationError:
        check(c["fail"], "estimation by a user's function failed")
    else:
        check(not c["fail"] and list(e) == [r[0], y[-1]], "a user's estimate came out as %s", e)
    try:
        Arbitrary(2, lambda q, x: x).estimate_parameters(r, y)
    except NotImplementedError:
        pass
    else:
        check(False, "an estimate without a function")
    return nt
