"""Rescaling peaks at a border point without moving their maxima."""

import math

import numpy as np
from hypothesis import strategies as st

from diffpy.srmise.peaks.base import PeakFunction, Peaks
from diffpy.srmise.peaks.terminationripples import TerminationRipples
from diffpy.srmise.srmiseerrors import SrMiseScalingError
from harness import gen, ref
from harness.core import LawSet, check

LAWS = LawSet(
    "C06",
    assumptions=[
        "Gaussian/r peaks lie at least three standard deviations from the origin, so they have a maximum",
        "borders are away from the maximum by at least 5% of the width, where the height is kept",
    ],
)


@st.composite
def rpeak(draw, around=None):
    p = draw(ref.peak(0.05))
    if around is not None:
        p["pos"] = around + draw(gen.floats(0.1, 2.0)) * p["width"] * draw(st.sampled_from([1, -1]))
    p["pos"] = max(p["pos"], 3.0 * p["width"] / ref.S2F + 0.3)
    return p


def height(p):
    """Position and height of the maximum, from the formulas."""
    s = p["width"] / ref.S2F
    m = p["pos"] if p["kind"] == "G" else 0.5 * (p["pos"] + math.sqrt(p["pos"] ** 2 - 4 * s * s))
    return m, float(ref.peakvalue(p["kind"], p["pos"], p["width"], p["area"], np.array([m]))[0])


def value(p, x):
    return float(ref.peakvalue(p["kind"], p["pos"], p["width"], p["area"], np.array([x]))[0])


def target_width(p, x, scale):
    """FWHM of the peak with the same maximum and scale times the value at x (None: there is none)."""
    m, h = height(p)
    t = scale * value(p, x) / h
    if t <= 0:
        return None
    if p["kind"] == "G":
        q = -math.log(t)
    else:
        q = (x - m) / m - math.log(t * abs(x) / m)
    if q <= 0:
        return None
    s = math.sqrt((x - m) ** 2 / (2 * q))
    if p["kind"] == "R" and s > 0.95 * m:
        return float("nan")  # the maximum would become a minimum
    return s * ref.S2F


@st.composite
def scaling(draw):
    p = draw(rpeak())
    m, _ = height(p)
    d = draw(gen.floats(0.05, 2.0)) * p["width"] * draw(st.sampled_from([1, -1]))
    x = m + d
    if x <= 0.05:
        x = m - d
    return {
        "peak": p,
        "x": x,
        "scale": draw(st.one_of(st.sampled_from([0.5, 2.0, 0.9, 1.1, 1.0]), gen.floats(0.01, 3.0))),
        "free": draw(st.one_of(st.just([True] * 3), st.lists(st.booleans(), min_size=3, max_size=3))),
        "ripples": draw(st.integers(0, 3)) == 0,
        "bad": draw(st.sampled_from([0.0, -1.0, -0.5])),
    }


def shape(pf, pk):
    return [float(v) for v in pf.transform_parameters(pk.pars, "internal", "pwa")]


@LAWS.law(scaling, quick=1500, rule="non-trivial: the peak was rescaled by a factor other than 1")
def one(c, note):
    """A rescaled peak takes the value asked for at the border, and keeps its maximum, its height and what is fixed."""
    p, x, f = c["peak"], c["x"], c["scale"]
    pf = ref.make_pf(p["kind"], p["max"])
    if c["ripples"]:
        pf = TerminationRipples(pf, 20.0)
    base = pf.base if c["ripples"] else pf
    pk = pf.actualize([p["pos"], p["width"], p["area"]], "pwa", free=c["free"])
    v0 = value(p, x)
    m, h = height(p)
    if v0 < 1e-12 * h:
        return False
    before = np.array(pk.pars)
    ok = pk.scale_at(x, f)
    want = target_width(p, x, f)
    if not ok:
        check(np.array_equal(pk.pars, before), "not rescaled, but the parameters changed from %s to %s", before, pk.pars)
        if all(c["free"]) and want is not None and want < p["max"] * 0.999:
            check(False, "a rescaling by %r at %r exists (width %r, maximum %r), but was refused", f, x, want, p["max"])
        note("refused")
        return False
    check(any(c["free"]), "a peak without free parameters was rescaled")
    check(list(pk.free) == c["free"], "rescaling changed what is free")
    for i in range(3):
        check(c["free"][i] or pk.pars[i] == before[i], "fixed parameter %d changed from %r to %r", i, before[i], pk.pars[i])
    if want is not None and math.isnan(want):
        return False
    pos, w, a = shape(pf, pk)
    q = dict(p, pos=pos, width=w, area=a)
    check(w <= p["max"] * (1 + 1e-9), "width %r above the maximum %r", w, p["max"])
    check(a > 0, "area %r", a)
    got = value(q, x)
    check(abs(got - f * v0) <= 1e-6 * f * v0 + 1e-9 * h, "value at %r is %r, expected %r times %r", x, got, f, v0)
    m1, h1 = height(q)
    check(abs(m1 - m) <= 1e-7 * m, "the maximum moved from %r to %r", m, m1)
    check(abs(h1 - h) <= 1e-7 * h, "the height changed from %r to %r", h, h1)
    check(want is not None and abs(want - w) <= 1e-5 * w, "width %r, expected %r", w, want)
    pos2, _ = base.max(pk.pars)
    check(abs(pos2 - m) <= 1e-7 * m, "the function reports its maximum at %r, was %r", pos2, m)
    note("scaled")
    return f != 1.0


@LAWS.law(scaling, quick=300, rule="non-trivial: a scale that is not positive")
def refuses(c, note):
    """Scales which are not positive are refused and change nothing."""
    p = c["peak"]
    pf, pk = ref.build(p)
    before = np.array(pk.pars)
    check(pk.scale_at(c["x"], c["bad"]) is False, "scaled by %r", c["bad"])
    check(np.array_equal(pk.pars, before), "a refused scaling changed the parameters")
    try:
        pf.scale_at(pk.pars, c["x"], c["bad"])
    except SrMiseScalingError:
        return True
    check(False, "scale_at accepts %r", c["bad"])


@st.composite
def matching(draw):
    x = draw(gen.floats(3.0, 10.0))
    ps = [draw(rpeak(around=x)) for _ in range(draw(st.integers(1, 4)))]
    for p in ps:
        m, _ = height(p)
        if abs(m - x) < 0.05 * p["width"]:
            p["pos"] += 0.2 * p["width"]
    frees = [draw(st.sampled_from([[True] * 3, [True] * 3, [True] * 3, [False] * 3, [False, True, True], [True, True, False]])) for _ in ps]
    return {"peaks": ps, "free": frees, "x": x, "ratio": draw(st.one_of(gen.floats(0.3, 1.6), st.sampled_from([0.0, -0.5, 0.05, 4.0])))}


@LAWS.law(matching, quick=1200, rule="non-trivial: at least one of >= 2 peaks was rescaled")
def match(c, note):
    """Peaks are matched to a height at a border: sum as asked, maxima in place, fixed values kept."""
    x = c["x"]
    pks = Peaks([ref.build(p, free=f)[1] for p, f in zip(c["peaks"], c["free"])])
    h0 = sum(value(p, x) for p in c["peaks"])
    tops = [height(p) for p in c["peaks"]]
    if any(value(p, x) < 1e-9 * t[1] for p, t in zip(c["peaks"], tops)):
        return False
    y = c["ratio"] * h0
    before = [np.array(p.pars) for p in pks]
    ok = pks.match_at(x, y)
    check(len(pks) == len(c["peaks"]), "%d peaks became %d", len(c["peaks"]), len(pks))
    total = float(pks.value(x))
    changed = [not np.array_equal(a, p.pars) for a, p in zip(before, pks)]
    check(ok in (True, False), "returns %r", ok)
    if not ok:
        check(not any(changed), "reported as not scaled, but the parameters changed")
    for p, f, pk, b, (m, h) in zip(c["peaks"], c["free"], pks, before, tops):
        for i in range(3):
            check(f[i] or pk.pars[i] == b[i], "fixed parameter %d changed from %r to %r", i, b[i], pk.pars[i])
        pos, w, a = shape(pk.owner(), pk)
        q = dict(p, pos=pos, width=w, area=a)
        if p["kind"] == "R" and w / ref.S2F > 0.95 * m:
            continue
        check(w <= p["max"] * (1 + 1e-9), "width %r above the maximum %r", w, p["max"])
        m1, h1 = height(q)
        check(abs(m1 - m) <= 1e-6 * m and abs(h1 - h) <= 1e-6 * h, "the maximum (%r, %r) became (%r, %r)", m, h, m1, h1)

    def can(i, scale):
        """True / False when scaling peak i by scale is certainly (im)possible, None when on the verge."""
        p, f = c["peaks"][i], c["free"][i]
        if scale == 1:
            return any(f)
        if scale <= 0 or not f[1] or not f[2] or (p["kind"] == "R" and not f[0]):
            return False
        w = target_width(p, x, scale)
        if w is None:
            return False
        if math.isnan(w) or abs(w / p["max"] - 1) < 1e-3 or abs(scale - 1) < 1e-6:
            return None
        return w < p["max"]

    n = range(len(pks))
    s1 = y / h0
    first = [can(i, s1) for i in n]
    if None in first:
        return False
    if all(first):
        check(ok, "all peaks can be scaled by %r, but none was", s1)
        check(abs(total - y) <= 1e-5 * h0, "sum at %r is %r, expected %r", x, total, y)
        note("all")
        return len(pks) >= 2 and any(changed)
    if not any(first):
        check(not any(changed), "no peak can be scaled, but parameters changed")
        note("none")
        return False
    fixed = sum(value(c["peaks"][i], x) for i in n if not first[i])
    if not fixed < y * (1 - 1e-9):
        note("some, out of reach")
        return any(changed)
    s2 = (y - fixed) / (h0 - fixed)
    second = [can(i, s2) for i in n if first[i]]
    if None in second:
        return False
    if all(second):
        check(ok, "the free peaks can be scaled by %r, but none was", s2)
        check(abs(total - y) <= 1e-5 * h0, "sum at %r is %r, expected %r (fixed %r)", x, total, y, fixed)
        for i in n:
            check(first[i] or not changed[i], "a peak that cannot be scaled was changed")
        note("rest")
    return len(pks) >= 2 and any(changed)


class Stiff(PeakFunction):
    """A peak of one's own which cannot be scaled."""

    def __init__(self):
        PeakFunction.__init__(self, {"position": 0, "height": 1}, ["internal"], {"default_input": "internal", "default_output": "internal"}, {})

    def _valueraw(self, pars, r):
        return pars[1] / (1 + (r - pars[0]) ** 2)

    def _transform_parametersraw(self, pars, in_format, out_format):
        return np.array(pars)


@LAWS.law(
    lambda: st.fixed_dictionaries({"m": matching(), "at": st.integers(0, 4), "pars": st.tuples(gen.floats(1, 12), gen.floats(0.1, 9)).map(list), "free": st.sampled_from([[True, True], [True, False], [False, True]])}),
    quick=200,
    rule="non-trivial: other peaks were to be scaled",
)
def unscalable(c, note):
    """With a peak which does not know how to be scaled, nothing is changed."""
    m = c["m"]
    pks = Peaks([ref.build(p, free=f)[1] for p, f in zip(m["peaks"], m["free"])])
    pks.insert(c["at"], Stiff().actualize(list(c["pars"]), free=list(c["free"])))
    before = [(p.owner(), np.array(p.pars), list(p.free)) for p in pks]
    got = pks.match_at(m["x"], m["ratio"] * float(pks.value(m["x"])))
    check(got is False, "reports that peaks were scaled")
    check(len(pks) == len(before), "%d peaks became %d", len(before), len(pks))
    for p, (o, v, f) in zip(pks, before):
        check(p.owner() is o and np.array_equal(p.pars, v) and list(p.free) == f, "%s became %s", v, p.pars)
    return m["ratio"] > 0 and any(any(f) for f in m["free"])
