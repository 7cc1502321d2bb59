"""What a peak evaluates to, given its position, width and area."""

import math

import numpy as np
from hypothesis import strategies as st

from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.srmiseerrors import SrMiseTransformationError
from harness import gen, ref
from harness.core import LawSet, check

LAWS = LawSet(
    "C03",
    assumptions=[
        "widths of at least 2% of the maximum width (below, the stored width parameter loses digits)",
        "Gaussian/r is evaluated away from r=0, where it is singular",
    ],
)


@st.composite
def at_points(draw):
    p = draw(ref.peak())
    s = p["width"]
    n = draw(st.integers(1, 25))
    off = draw(st.lists(gen.floats(-4, 4), min_size=n, max_size=n, unique=True))
    r = [p["pos"] + o * s for o in sorted(off)]
    if p["kind"] == "R":
        r = [v for v in r if abs(v) > 0.01] or [p["pos"]]
    p["r"] = r
    p["rng"] = draw(st.one_of(st.none(), ref.slices(len(r))))
    p["fmt"] = draw(st.sampled_from(["pwa", "mu_sigma_area"]))
    return p


@LAWS.law(at_points, quick=1200, rule="non-trivial: >= 3 points with values above 1% of the peak's height")
def value(c, note):
    """Values follow the closed formula, alike at points, on grids and in ranges."""
    r = np.array(c["r"])
    pf = ref.make_pf(c["kind"], c["max"])
    w = c["width"] / ref.S2F if c["fmt"] == "mu_sigma_area" else c["width"]
    pk = pf.actualize([c["pos"], w, c["area"]], c["fmt"])
    want = ref.peakvalue(c["kind"], c["pos"], c["width"], c["area"], r)
    top = float(np.max(ref.peakvalue(c["kind"], c["pos"], c["width"], c["area"], np.array([c["pos"]]))))
    got = pk.value(r)
    check(got.shape == r.shape, "%d values at %d points", got.size, r.size)
    check(np.all(np.abs(got - want) <= 1e-8 * np.abs(want) + 1e-9 * top + 1e-200), "value %s, expected %s", got, want)
    check(np.all(got >= 0), "negative value: %s", got)
    for i in (0, len(r) // 2, len(r) - 1):
        v = pk.value(float(r[i]))
        check(np.ndim(v) == 0 and abs(v - got[i]) <= 1e-12 * top + 1e-12 * abs(v), "value at the point %r is %r, in a sequence %r", r[i], v, got[i])
    if c["rng"] is not None:
        a, b = c["rng"]
        part = pk.value(r, slice(a, b))
        exp = np.zeros(len(r))
        exp[a:b] = got[a:b]
        check(np.array_equal(part, exp) or ref.close(part, exp, 1e-12), "restricted to [%d,%d): %s, expected %s", a, b, part, exp)
    note(c["kind"] + " " + c["fmt"])
    return int(np.sum(want > 0.01 * top)) >= 3


@LAWS.law(
    lambda: st.fixed_dictionaries(
        {
            "kind": ref.KINDS,
            "max": st.sampled_from([0.5, 0.7, 1.0, 2.0]),
            "pars": st.tuples(gen.floats(-20, 20), gen.floats(-40, 40), gen.floats(-30, 30)).map(list),
            "r": st.lists(gen.floats(0.1, 20), min_size=1, max_size=12),
        }
    ),
    quick=1000,
    rule="non-trivial: width parameter outside [-pi/2, pi/2] or negative area",
)
def unconstrained(c, note):
    """Any real internal parameters give a peak of width within the maximum, positive area, no negative value."""
    pos, p, a = c["pars"]
    pf = ref.make_pf(c["kind"], c["max"])
    w = ref.fwhm_of(p, c["max"])
    if w < 0.02 * c["max"]:
        return False
    pk = pf.actualize([pos, 0.0, 1.0], "internal")
    pk.update(np.array(c["pars"]))
    r = np.array(c["r"])
    want = ref.peakvalue(c["kind"], pos, w, abs(a), r)
    got = pk.value(r)
    check(np.all(got >= 0), "negative value %s", got)
    check(np.all(np.abs(got - want) <= 1e-9 * np.abs(want) + 1e-9 * np.max(np.abs(want)) + 1e-200), "value %s, expected %s", got, want)
    q = pf.transform_parameters(c["pars"], "internal", "pwa")
    check(abs(q[0] - pos) == 0 and abs(q[2] - abs(a)) == 0, "position or area %s of %s", q, c["pars"])
    check(0 <= q[1] <= c["max"] * (1 + 1e-12), "width %r outside [0, %r]", q[1], c["max"])
    check(abs(q[1] - w) <= 1e-9 * c["max"], "width %r, expected %r", q[1], w)
    return a < 0 or abs(p) > math.pi / 2


@LAWS.law(ref.peak, quick=600, rule="non-trivial: the peak has a local maximum")
def maximum(c, note):
    """The reported maximum is where the curve is highest, with the curve's height."""
    pf, pk = ref.build(c)
    s = c["width"] / ref.S2F
    if c["kind"] == "R" and c["pos"] <= 2 * s * (1 + 1e-6):
        if c["pos"] < 2 * s * (1 - 1e-6):
            try:
                pf.max(pk.pars)
            except ValueError:
                note("none")
                return False
            check(False, "a maximum is reported, but Gaussian/r of position %r and sigma %r has none", c["pos"], s)
        return False
    pos, top = pf.max(pk.pars)
    if c["kind"] == "G":
        check(abs(pos - c["pos"]) <= 1e-9 * c["pos"], "maximum at %r, not at %r", pos, c["pos"])
    v = float(ref.peakvalue(c["kind"], c["pos"], c["width"], c["area"], np.array([pos]))[0])
    check(abs(v - top) <= 1e-8 * v, "height %r at the maximum, the curve has %r there", top, v)
    if c["kind"] == "R":
        # derivative of exp(-(r-m)^2/2s^2)/r is proportional to -(r-m) r/s^2 - 1
        slope = -(pos - c["pos"]) * pos / s**2 - 1
        lim = 1e-6 * (1 + pos * c["pos"] / s**2)
        check(abs(slope) <= lim, "the curve is not flat at its reported maximum %r (relative slope %g)", pos, slope)
        curv = -(2 * pos - c["pos"])
        check(curv <= 1e-6 * pos, "the reported maximum %r is a minimum", pos)
    d = 1e-3 * s
    near = ref.peakvalue(c["kind"], c["pos"], c["width"], c["area"], np.array([pos - d, pos + d]))
    check(np.all(near <= top * (1 + 1e-9)), "values %s next to the reported maximum %r", near, top)
    check(len(pf.max([])) == 0 if pf.max([]) is not None else True, "maximum of no parameters")
    return True


@LAWS.law(
    lambda: st.fixed_dictionaries(
        {
            "kind": ref.KINDS,
            "max": st.sampled_from([0.5, 0.7, 1.0, 2.0]),
            "over": st.one_of(st.sampled_from([1e-9, 1e-6, 0.01, 1.0, 10.0]), gen.floats(1e-9, 5.0), gen.floats(-0.9, -1e-9)),
            "fmt": st.sampled_from(["pwa", "mu_sigma_area"]),
            "bad": st.sampled_from([0.0, -0.7, -1.0]),
        }
    ),
    quick=400,
    rule="non-trivial: a width above the maximum",
)
def cap(c, note):
    """Widths above the maximum are refused, and so is a maximum which is not positive."""
    pf = ref.make_pf(c["kind"], c["max"])
    w = c["max"] * (1 + c["over"])
    if c["fmt"] == "mu_sigma_area":
        w /= ref.S2F
    try:
        pk = pf.actualize([3.0, w, 2.0], c["fmt"])
    except SrMiseTransformationError:
        check(c["over"] > 0, "width %r refused although the maximum is %r", c["max"] * (1 + c["over"]), c["max"])
    else:
        check(c["over"] < 0, "width %r accepted although the maximum is %r", c["max"] * (1 + c["over"]), c["max"])
        got = pf.transform_parameters(pk.pars, "internal", c["fmt"])
        check(ref.close(got, [3.0, w, 2.0], 1e-7), "gave %s, got %s", w, got)
    for cls in (Gaussian, GaussianOverR):
        try:
            cls(c["bad"])
        except ValueError:
            pass
        else:
            check(False, "maximum width %r accepted", c["bad"])
    return c["over"] > 0


@st.composite
def several(draw):
    n = draw(st.integers(0, 5))
    ps = [draw(ref.peak()) for _ in range(n)]
    g = draw(ref.rgrid(0.3, 10.0, 2, 40))
    for p in ps:
        if draw(st.integers(0, 3)):
            p["pos"] = g["r0"] + g["dr"] * draw(gen.floats(0.0, float(g["n"])))
    return {"peaks": ps, "grid": g, "rng": draw(ref.slices(g["n"]))}


@LAWS.law(several, quick=400, rule="non-trivial: >= 2 peaks contribute")
def sums(c, note):
    """Overlapping peaks add up, at all points or within a range."""
    r = ref.grid(c["grid"])
    pks = Peaks([ref.build(p)[1] for p in c["peaks"]])
    parts = [ref.peakvalue(p["kind"], p["pos"], p["width"], p["area"], r) for p in c["peaks"]]
    want = np.sum(parts, axis=0) if parts else np.zeros(len(r))
    r0 = r.copy()
    got = pks.value(r)
    check(ref.close(got, want, 1e-8, 1e-10), "sum %s, expected %s", got, want)
    a, b = c["rng"]
    part = pks.value(r, slice(a, b))
    exp = np.zeros(len(r))
    exp[a:b] = want[a:b]
    check(ref.close(part, exp, 1e-8, 1e-10), "restricted to [%d,%d): %s, expected %s", a, b, part, exp)
    mid = float(r[len(r) // 2])
    check(abs(pks.value(mid) - want[len(r) // 2]) <= 1e-8 * np.max(np.abs(want)) + 1e-10, "sum at %r", mid)
    check(np.array_equal(r, r0), "evaluation changed the points")
    return sum(np.max(p) > 1e-3 for p in parts) >= 2


@LAWS.law(ref.peak, quick=300, rule="every case: the integral of the curve is computed")
def area(c, note):
    """The area under the curve (times r, for Gaussian/r) is the area parameter, the half-height width the width."""
    pf, pk = ref.build(c)
    s = c["width"]
    r = np.linspace(c["pos"] - 3 * s, c["pos"] + 3 * s, 1601)
    r[np.abs(r) < 1e-9] = 1e-9
    v = pk.value(r)
    if c["kind"] == "R":
        v = v * np.abs(r)
    total = float(np.sum(0.5 * (v[1:] + v[:-1]) * np.diff(r)))
    check(abs(total - c["area"]) <= 1e-5 * c["area"], "area under the curve %r, parameter %r", total, c["area"])
    h = pk.value(np.array([c["pos"] - s / 2, c["pos"], c["pos"] + s / 2]) + 0.0) * (
        np.abs(np.array([c["pos"] - s / 2, c["pos"], c["pos"] + s / 2])) if c["kind"] == "R" else 1.0
    )
    if c["kind"] == "R" and abs(c["pos"] - s / 2) < 1e-6:
        return True
    check(abs(h[0] / h[1] - 0.5) < 1e-6 and abs(h[2] / h[1] - 0.5) < 1e-6, "heights %s at half the width %r", h, s)
    return True
