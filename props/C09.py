"""Termination ripples: peaks band-limited at qmax."""

import math

import numpy as np
from hypothesis import strategies as st

from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.terminationripples import TerminationRipples
from harness import gen, ref
from harness.core import LawSet, check

LAWS = LawSet(
    "C09",
    assumptions=[
        "peaks are at least 1.8/qmax wide (narrower ones alias at the default supersampling)",
        "points are uniformly spaced, at r > 0.5",
        "the discrete ripples agree with the continuous convolution to 5% of the peak's height (edge effects)",
    ],
)


@st.composite
def rippled(draw):
    q = draw(st.sampled_from([8.0, 12.0, 17.5, 20.0, 25.0, 30.0]))
    n = draw(st.sampled_from([8, 20, 50, 100, 200]))
    dr = draw(st.sampled_from([0.01, 0.02, 0.05, 0.1, "nyquist", "coarse"]))
    dr = math.pi / q if dr == "nyquist" else 1.7 * math.pi / q if dr == "coarse" else dr
    r0 = draw(gen.floats(1.0, 8.0))
    pos = r0 + draw(gen.floats(0.0, 1.0)) * (n - 1) * dr
    return {
        "kind": draw(ref.KINDS),
        "max": 0.7,
        # narrower peaks are too coarsely sampled by the default supersampling
        "width": draw(gen.floats(max(0.06, 1.8 / q), 0.7)),
        "pos": max(pos, 1.5),
        "area": draw(gen.floats(0.5, 20)),
        "q": q,
        "grid": {"r0": r0, "dr": dr, "n": n},
        "rng": draw(ref.slices(n)),
        "factor": draw(st.sampled_from([0.5, 2.0, 3.0])),
    }


def continuous(c, r):
    """Convolution of the peak with sin(qmax x)/(pi x), by quadrature."""
    w, pos = c["width"], c["pos"]
    rp = np.linspace(max(0.02, pos - 5 * w), pos + 5 * w, 3001)
    v = ref.peakvalue(c["kind"], pos, w, c["area"], rp)
    d = rp[1] - rp[0]
    return np.array([np.sum(c["q"] / np.pi * np.sinc(c["q"] * (x - rp) / np.pi) * v) * d for x in r])


def build(c, area=None):
    tr = TerminationRipples(ref.make_pf(c["kind"], c["max"]), c["q"])
    return tr, tr.actualize([c["pos"], c["width"], area or c["area"]], "pwa")


@LAWS.law(rippled, quick=500, rule="non-trivial: the ripples exceed 5% of the peak's height")
def convolution(c, note):
    """Values are those of the peak convolved with the sinc function of the cutoff, on any grid, range or point."""
    r = ref.grid(c["grid"])
    tr, p = build(c)
    h = float(ref.peakvalue(c["kind"], c["pos"], c["width"], c["area"], np.array([c["pos"]]))[0])
    want = continuous(c, r)
    plain = ref.peakvalue(c["kind"], c["pos"], c["width"], c["area"], r)
    size = float(np.max(np.abs(want - plain)))
    got = p.value(r)
    check(got.shape == r.shape and np.all(np.isfinite(got)), "values %s", got)
    lim = 0.05 * h
    err = float(np.max(np.abs(got - want)))
    check(err <= lim, "differs by %.3g of the height from the continuous ripples (of size %.3g)", err / h, size / h)
    x = float(r[len(r) // 2])
    v = p.value(x)
    check(np.ndim(v) == 0 and abs(float(v) - want[len(r) // 2]) <= lim, "at the point %r: %r, expected %r (height %r)", x, v, want[len(r) // 2], h)
    a, b = c["rng"]
    if b > a:
        part = p.value(r, slice(a, b))
        check(np.all(part[:a] == 0) and np.all(part[b:] == 0), "not zero outside the range [%d,%d)", a, b)
        check(float(np.max(np.abs(part[a:b] - want[a:b]))) <= lim, "in the range [%d,%d): %s, expected %s", a, b, part[a:b], want[a:b])
    check(np.array_equal(r, ref.grid(c["grid"])), "evaluation changed the points")
    s = Peaks([p, p.copy()]).value(r)
    check(ref.close(s, 2 * got, 1e-9), "two peaks are not the sum")
    note("dr>nyquist" if c["grid"]["dr"] > math.pi / c["q"] * 1.001 else "fine")
    return size > 0.05 * h


@LAWS.law(rippled, quick=300, rule="non-trivial: the ripples are visible (value differs from the base by > 1%)")
def linear(c, note):
    """Ripples are linear in the peak, and a large enough cutoff leaves it as it is."""
    r = ref.grid(c["grid"])
    tr, p = build(c)
    _, q = build(c, c["area"] * c["factor"])
    a, b = p.value(r), q.value(r)
    check(ref.close(b, a * c["factor"], 1e-9), "area times %r: %s, expected %s", c["factor"], b, a * c["factor"])
    h = float(ref.peakvalue(c["kind"], c["pos"], c["width"], c["area"], np.array([c["pos"]]))[0])
    plain = ref.peakvalue(c["kind"], c["pos"], c["width"], c["area"], r)
    high = TerminationRipples(ref.make_pf(c["kind"], c["max"]), 12 * ref.S2F / c["width"])
    v = high.actualize([c["pos"], c["width"], c["area"]], "pwa").value(r)
    check(float(np.max(np.abs(v - plain))) <= 0.02 * h, "a cutoff far above the peak's frequencies changes it by %.3g of its height", np.max(np.abs(v - plain)) / h)
    check(tr.qmax == c["q"] and tr.base.maxwidth == c["max"], "cutoff or base function changed")
    return float(np.max(np.abs(a - plain))) > 0.01 * h


@st.composite
def sequence(draw):
    n = draw(st.integers(2, 130))
    k = draw(st.sampled_from(["noise", "delta", "smooth", "sine"]))
    if k == "noise":
        s = draw(st.lists(gen.floats(-5, 5), min_size=n, max_size=n))
    elif k == "delta":
        s = [0.0] * n
        s[draw(st.integers(0, n - 1))] = 1.0
    elif k == "sine":
        w = draw(gen.floats(0.05, 3.1))
        s = [math.sin(w * i) for i in range(n)]
    else:
        s = [math.exp(-((i - n / 2.0) ** 2) / n) for i in range(n)]
    return {"s": s, "delta": draw(st.sampled_from([0.01, 0.05, 0.1, 0.13])), "frac": draw(gen.floats(0.03, 1.3))}


@LAWS.law(sequence, quick=800, rule="non-trivial: the cutoff removes some, not all, of the frequencies")
def lowpass(c, note):
    """The filter removes exactly the frequencies at and above the cutoff: a linear projection."""
    s = np.array(c["s"])
    n = len(s)
    pad = 1
    while pad < n:
        pad *= 2
    dq = 2 * math.pi / ((pad - 1) * c["delta"]) if pad > 1 else 1.0
    k = c["frac"] * pad / 2
    k = math.floor(k) + 0.5  # the cutoff lies between two frequencies
    tr = TerminationRipples(ref.make_pf("G", 0.7), k * dq)
    keep = s.copy()
    got = tr.cut_freq(s, c["delta"])
    check(np.array_equal(s, keep), "the filter changed its input")
    check(np.shape(got) == (n,) and np.isrealobj(got), "filtered %d values into %s", n, np.shape(got))
    f = np.fft.rfft(np.concatenate([s, np.zeros(pad - n)]))
    f[int(math.ceil(k)) :] = 0
    if int(math.ceil(k)) > pad // 2:
        want = s
    else:
        want = np.fft.irfft(f, pad)[:n]
    check(ref.close(got, want, 1e-9, 1e-9), "filtered %s, expected %s", got, want)
    if pad == n:
        again = tr.cut_freq(got, c["delta"])
        check(ref.close(again, got, 1e-9, 1e-9), "filtering twice differs from filtering once")
    note("all" if k > pad // 2 else "some")
    return 0 < math.ceil(k) <= pad // 2


@LAWS.law(
    lambda: st.fixed_dictionaries(
        {"q": st.sampled_from([5.0, 12.0, 20.0, 30.0]), "grid": ref.rgrid(0.01, 6.0, 1, 30), "zero": st.booleans(), "ext": st.sampled_from([1.0, 4.0, 7.0])}
    ),
    quick=400,
    rule="non-trivial: the extension is cut short at the origin",
)
def extension(c, note):
    """Grids are extended evenly by the requested multiple of 2 pi/qmax, never to r <= 0."""
    r = ref.grid(c["grid"])
    dr = c["grid"]["dr"]
    if c["zero"]:
        r = dr * np.arange(1, c["grid"]["n"] + 1)
    tr = TerminationRipples(ref.make_pf("R", 0.7), c["q"], c["ext"])
    e, s = tr.extend_grid(r, dr)
    check(np.array_equal(e[s], r), "the original points are not in the extended grid")
    check(np.all(np.abs(np.diff(e) - dr) <= 1e-6 * dr), "uneven spacing %s", np.diff(e))
    check(e[0] > 0, "extended to r=%r", e[0])
    ext = c["ext"] * 2 * math.pi / c["q"]
    check(e[-1] >= r[-1] + ext - 1.5 * dr and e[-1] <= r[-1] + ext + 2.5 * dr, "extended right to %r, expected %r", e[-1], r[-1] + ext)
    low = max(r[0] - ext, 0.0)
    check(e[0] >= low - 2.5 * dr and e[0] <= low + 1.6 * dr, "extended left to %r, expected %r (spacing %r)", e[0], low, dr)
    p = tr.actualize([3.0, 0.3, 1.0], "pwa")
    v = p.value(r)
    check(np.all(np.isfinite(v)), "values %s near the origin", v)
    for j in p.jacobian(r):
        check(np.all(np.isfinite(j)), "derivatives %s near the origin", j)
    return r[0] - ext < 0
