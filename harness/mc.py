"""Generated data clusters with a model: cases, objects and reference values."""

import numpy as np
from hypothesis import strategies as st

from harness import gen, ref


@st.composite
def peakspec(draw, lo, hi, free=True):
    return {
        "pos": draw(gen.floats(lo, hi)),
        "width": draw(gen.floats(0.08, 0.69)),
        "area": draw(gen.floats(0.5, 20)),
        "free": draw(st.one_of(st.just([True] * 3), st.lists(st.booleans(), min_size=3, max_size=3))) if free else [True] * 3,
        "removable": draw(st.integers(0, 4)) > 0,
    }


@st.composite
def separated(draw, n, lo=2.8, kind=None):
    """n well separated peaks from lo on, and where the last may end."""
    out = []
    pos = lo
    for _ in range(n):
        w = draw(gen.floats(0.15, 0.5))
        out.append({"pos": pos, "width": w, "area": draw(gen.floats(3, 15)), "free": [True] * 3, "removable": True})
        pos += draw(gen.floats(0.9, 1.5))
    return out, pos


BASES = ["missing", "none", "poly0", "poly1"]


@st.composite
def cluster(draw, npeaks=(0, 4)):
    """Data of separated peaks on a baseline, a slice of it, and a (different) model."""
    truth, end = draw(separated(draw(st.integers(1, 4))))
    base = draw(st.sampled_from(BASES))
    dr = draw(st.sampled_from([0.05, 0.08]))
    n = int((end - 2.0) / dr)
    a = draw(st.integers(0, n // 3))
    b = draw(st.integers(2 * n // 3, n))
    return {
        "kind": draw(ref.KINDS),
        "truth": truth,
        "base": base,
        "bp": draw(st.lists(gen.floats(-0.5, 0.5), min_size=2, max_size=2)),
        "bfree": draw(st.booleans()),
        "grid": {"r0": 2.0, "dr": dr, "n": n},
        "slice": [a, b],
        "err": draw(st.sampled_from([0.1, 0.5, 3.0, 50.0])),
        "erise": draw(st.sampled_from([0.0, 0.0, 3.0, -0.9])),
        "noise": draw(st.sampled_from([0.0, 0.1, 0.5])),
        "wave": draw(gen.floats(3, 40)),
        "eval": draw(st.sampled_from(["AIC", "AICc"])),
        "model": draw(st.lists(peakspec(2.2, end), min_size=npeaks[0], max_size=npeaks[1])),
    }


def evaluator(name):
    from diffpy.srmise.modelevaluators.aic import AIC
    from diffpy.srmise.modelevaluators.aicc import AICc

    return {"AIC": AIC, "AICc": AICc}[name]


def baseline(c):
    from diffpy.srmise.baselines.polynomial import Polynomial

    b = c["base"]
    if b == "missing":
        return None
    d = {"none": -1, "poly0": 0, "poly1": 1}[b]
    return Polynomial(d).actualize(c["bp"][: d + 1], free=[c["bfree"]] * (d + 1))


def basevalue(c, r):
    d = {"missing": -1, "none": -1, "poly0": 0, "poly1": 1}[c["base"]]
    return np.polyval(c["bp"][: d + 1], r) if d >= 0 else np.zeros(len(r))


def peakvalues(c, specs, r):
    y = np.zeros(len(r))
    for p in specs:
        y = y + ref.peakvalue(c["kind"], p["pos"], p["width"], p["area"], r)
    return y


def peaks(specs, pf):
    from diffpy.srmise.peaks.base import Peaks

    return Peaks(
        [pf.actualize([p["pos"], p["width"], p["area"]], "pwa", free=p["free"], removable=p["removable"]) for p in specs]
    )


def data(c):
    r = ref.grid(c["grid"])
    y = peakvalues(c, c["truth"], r) + basevalue(c, r) + c["noise"] * np.sin(c["wave"] * r + np.arange(len(r)) ** 2)
    return r, y, c["err"] * (1 + c.get("erise", 0.0) * np.linspace(0, 1, len(r)))


def make(c):
    """(cluster, peak function, r, y, dy)"""
    from diffpy.srmise.modelcluster import ModelCluster

    pf = ref.make_pf(c["kind"], 0.7)
    r, y, e = data(c)
    m = peaks(c["model"], pf)
    m.sort(key="position")
    return ModelCluster(m, baseline(c), r, y, e, slice(*c["slice"]), evaluator(c["eval"]), [pf]), pf, r, y, e


def penalty(name, k, n):
    """Akaike's penalty for k parameters and n points (at least the smallest number for which it is defined)."""
    if name == "AIC":
        return 2.0 * k
    n = max(n, k + 2)
    return 2.0 * k + 2.0 * k * (k + 1) / (n - k - 1)


def stat(m, name, count_fixed=False, kshift=0):
    """The criterion for a cluster, from the values of its parts."""
    v = np.zeros(m.size)
    for p in m.model:
        v = v + p.value(np.array(m.r_cluster))
    if m.baseline is not None:
        v = v + m.baseline.value(np.array(m.r_cluster))
    chi = float(np.sum(((np.array(m.y_cluster) - v) / np.array(m.error_cluster)) ** 2))
    k = sum(len(p) if count_fixed else sum(bool(f) for f in p.free) for p in m.model) + kshift
    return chi + penalty(name, k, m.size)
