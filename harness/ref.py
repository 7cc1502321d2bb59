"""Reference formulas, written from the documentation, and case-to-object builders."""

import math

import numpy as np
from hypothesis import strategies as st

from harness import gen

S2F = 2.0 * math.sqrt(2.0 * math.log(2.0))  # FWHM of a Gaussian of unit standard deviation


def gauss(pos, fwhm, area, r):
    s = fwhm / S2F
    return area / (s * math.sqrt(2 * math.pi)) * np.exp(-((np.asarray(r, dtype=float) - pos) ** 2) / (2 * s * s))


def peakvalue(kind, pos, fwhm, area, r):
    v = gauss(pos, fwhm, area, r)
    return v / np.abs(r) if kind == "R" else v


def maxat(kind, pos, fwhm):
    """Position of the maximum."""
    if kind == "G":
        return pos
    s = fwhm / S2F
    return 0.5 * (pos + math.sqrt(max(pos * pos - 4 * s * s, 0.0)))


def fwhm_of(p, maxwidth):
    """FWHM of the internal width parameter: half its squared maximum times (1 + sin p)."""
    return maxwidth * math.sqrt(0.5 * (1 + math.sin(p)))


def nano(s, R, r):
    """-s r gamma_0(r) of a sphere of radius R."""
    s, R = abs(s), abs(R)
    r = np.asarray(r, dtype=float)
    x = r / R
    return np.where((r > 0) & (r < 2 * R), -s * r * (1 - 0.75 * x + x**3 / 16.0), 0.0)


def close(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    scale = max(float(np.max(np.abs(b))), 0.0) if np.all(np.isfinite(b)) else 1.0
    return bool(np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= atol + rtol * scale))


def make_pf(kind, maxwidth):
    from diffpy.srmise.peaks.gaussian import Gaussian
    from diffpy.srmise.peaks.gaussianoverr import GaussianOverR

    return (GaussianOverR if kind == "R" else Gaussian)(maxwidth)


KINDS = st.sampled_from(["G", "R"])


@st.composite
def peak(draw, minfrac=0.02):
    """One peak: kind, the cap on its width, and position, width and area within the cap."""
    m = draw(st.sampled_from([0.5, 0.7, 1.0, 2.0, 4.0]))
    frac = draw(st.one_of(st.sampled_from([1.0, 0.5, 0.25, 0.1]), gen.floats(minfrac, 1.0)))
    return {
        "kind": draw(KINDS),
        "max": m,
        "pos": draw(gen.floats(0.5, 30.0)),
        "width": m * frac,
        "area": draw(st.one_of(gen.floats(0.01, 50.0), st.sampled_from([1e-3, 1.0, 1e4]))),
    }


def build(c, pf=None, **kw):
    pf = pf or make_pf(c["kind"], c["max"])
    return pf, pf.actualize([c["pos"], c["width"], c["area"]], "pwa", **kw)


@st.composite
def rgrid(draw, lo=0.05, hi=20.0, minlen=1, maxlen=60):
    """A regular grid of positive r."""
    n = draw(st.integers(minlen, maxlen))
    dr = draw(st.sampled_from([0.01, 0.02, 0.05, 0.1, 0.25]))
    r0 = draw(gen.floats(lo, hi))
    return {"r0": r0, "dr": dr, "n": n}


def grid(g):
    return g["r0"] + g["dr"] * np.arange(g["n"])


def slices(n):
    """A slice [a, b) of n points, possibly empty or whole."""
    return st.tuples(st.integers(0, n), st.integers(0, n)).map(sorted).map(list)
