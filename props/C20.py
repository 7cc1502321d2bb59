"""Extraction of peaks from data, end to end."""

import logging

import numpy as np
from hypothesis import strategies as st

from diffpy.srmise.baselines.nanospherical import NanoSpherical
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.terminationripples import TerminationRipples
from diffpy.srmise.srmiseerrors import SrMiseUndefinedCovarianceError
from harness import boot, gen, mc, ref
from harness.core import LawSet, check

LAWS = LawSet(
    "C20",
    assumptions=[
        "recovery is claimed for peaks separated by at least 1.3 times the sum of their widths (1.5 with termination ripples, and widths of at least 0.25), data without noise, and a baseline given",
        "with termination ripples: uncertainties of 4-6% of the range, supersampled data",
    ],
)


@st.composite
def truth(draw, wmin=0.15, sep=1.3, amin=3):
    """Separated peaks on a baseline."""
    n = draw(st.integers(1, 4))
    pk = []
    pos = draw(gen.floats(2.0, 3.0))
    for i in range(n):
        w = draw(gen.floats(wmin, 0.45))
        if pk:
            pos += draw(gen.floats(sep, 2.2)) * (w + pk[-1][1])
        pk.append([pos, w, draw(gen.floats(amin, 12))])
    return pk


def data(c):
    """r, y without noise, and the baseline part."""
    pf = ref.make_pf(c["kind"], 0.7)
    f = TerminationRipples(pf, c["qmax"]) if c["qmax"] else pf
    dr = c["dr"]
    r = np.arange(c["truth"][0][0] - 1.0, c["truth"][-1][0] + 1.0, dr)
    y = np.zeros(len(r))
    for p in c["truth"]:
        y = y + f.actualize(list(p), "pwa").value(r)
    if c["base"] == "nano":
        b = NanoSpherical().actualize([0.02, 20.0])
    elif c["base"] == "slope":
        b = Polynomial(1).actualize([-c["slope"], 0.0])
    else:
        b = None
    if b is not None:
        y = y + b.value(r)
    return pf, r, y, b


def pwa(peaks):
    return np.array([p.owner().transform_parameters(p.pars, "internal", "pwa") for p in peaks]).reshape(-1, 3)


def curve(m, rows, base):
    """What a model of these positions, widths and areas gives."""
    out = np.zeros(len(m.r_cluster))
    for q, t in zip(m.model, rows):
        out = out + q.owner().actualize(list(t), "pwa").value(m.r_cluster)
    if base is not None:
        out = out + base.owner().actualize(list(base.pars)).value(m.r_cluster)
    return out


def uncertainties(m):
    """The covariance to be expected of the free parameters (position, width, area, ..., baseline), or None where it is ill-defined.

    The scaled inverse of J'J, J by finite differences."""
    rows = pwa(m.model)
    n = 3 * len(rows)
    base = m.baseline if m.baseline is not None and np.any(m.baseline.free) else None
    if base is not None and isinstance(base.owner(), NanoSpherical):
        return None  # the radius is badly defined on a few points
    theta = np.concatenate([rows.ravel(), np.array(base.pars, dtype=float) if base is not None else []])
    free = np.concatenate([np.array(q.free, dtype=bool) for q in m.model] + ([np.array(base.free, dtype=bool)] if base is not None else []))
    dof = len(m.r_cluster) - int(free.sum())
    if dof <= 0 or not free.any():
        return None
    for q, t in zip(m.model, rows):
        o = q.owner().base or q.owner()
        if not 0.15 < t[1] / o.maxwidth < 0.97 or t[2] < 0.2:
            return None  # at the limits

    def value(t):
        b = base
        if b is not None:
            b = base.copy()
            b.pars = np.array(t[n:])
        return curve(m, np.array(t[:n]).reshape(-1, 3), b)

    cols = []
    for a in np.nonzero(free)[0]:
        h = 1e-5 * (rows[a // 3, 1] if a < n and a % 3 < 2 else max(1.0, abs(theta[a])))
        lo, hi = theta.copy(), theta.copy()
        lo[a] -= h
        hi[a] += h
        cols.append((value(hi) - value(lo)) / (2 * h) / m.error_cluster)
    j = np.array(cols).T
    sc = np.sqrt(np.sum(j**2, axis=0))
    if (sc < 1e-12).any() or np.linalg.cond(j / sc) > 300:
        return None
    res = m.residual() / m.error_cluster
    if np.sum(res**2) < 1e-6 or np.max(np.abs((j / sc).T @ res)) > 1e-3 * np.sqrt(np.sum(res**2)):
        return None  # an exact model, or stopped before the optimum
    cov = np.linalg.inv((j / sc).T @ (j / sc)) / np.outer(sc, sc) * np.sum(res**2) / dof
    full = np.zeros((len(theta), len(theta)))
    full[np.ix_(free, free)] = cov
    return full


def covariance(p, cov, kind, note=lambda t: None, moved=False):
    """The covariance reported belongs to the peaks of the result (position, width, area where the function can convert), and is that of the fit."""
    m = p.extracted
    want = uncertainties(m) if len(m.model) else None
    if cov.cov is None:
        if want is not None and moved:
            # only for a fit which failed, or ended elsewhere and was taken back
            with boot.listening() as seen:
                getattr(p, p.extraction_type)()
            lost = [t for _, t in seen if t.startswith(("Error while fitting cluster", "Covariance not defined.  "))]
            check(lost, "no covariance of a well-defined fit")
            note("fit failed")
        return
    rows = pwa(m.model) if kind == "R" else np.array([q.pars for q in m.model]).reshape(-1, 3)
    for i in range(len(m.model)):
        for j in range(3):
            try:
                v, u = cov.getvalue((i, j)), cov.getuncertainty((i, j))
            except SrMiseUndefinedCovarianceError:
                return
            check(abs(v - rows[i, j]) <= 1e-3 * (1 + abs(rows[i, j])), "parameter %d of peak %d: %r in the covariance, %r in the model", j, i, v, rows[i, j])
            check((u >= 0 and (u == 0 or m.model[i].free[j])) or u != u, "uncertainty %r of parameter %d of peak %d", u, j, i)
    if want is None:
        return
    if kind != "R":  # Gaussian keeps its own parameters
        g = np.identity(len(want))
        for i, q in enumerate(m.model):
            w, x = q.owner().transform_parameters(q.pars, "internal", "pwa")[1], (q.owner().base or q.owner()).maxwidth
            g[3 * i + 1, 3 * i + 1] = (4 * w / x**2) / np.sqrt(1 - (2 * w * w / x**2 - 1) ** 2)
        want = g @ want @ g.T
    check(len(cov.pmap) == len(want), "%d parameters in the covariance, %d fitted or fixed", len(cov.pmap), len(want))
    for a in range(len(want)):
        for b in range(a + 1):
            v = cov.getcovariance(a, b)
            check(
                abs(v - want[a, b]) <= 0.05 * np.sqrt(want[a, a] * want[b, b]) + 1e-12,
                "covariance of parameters %d and %d is %r, expected %r",
                a,
                b,
                v,
                want[a, b],
            )
    note("covariance compared")


@st.composite
def clean(draw):
    q = draw(st.booleans())
    return {
        "truth": draw(truth(*((0.25, 1.5, 6) if q else (0.15, 1.3)))),
        "kind": draw(ref.KINDS),
        "qmax": draw(gen.floats(20, 30)) if q else 0.0,
        "nyquist": draw(st.booleans()),
        "dr": draw(st.sampled_from([0.02, 0.05])),
        "base": draw(st.sampled_from(["none", "slope", "nano"])),
        "slope": draw(gen.floats(0, 0.6)),
        "level": draw(gen.floats(0.04, 0.06)) if q else draw(st.sampled_from([0.005, 0.02, 0.05])),
        "cres": draw(st.sampled_from([0.05, 0.1, 0.2])),
        "eval": draw(st.sampled_from(["AIC", "AICc"])),
        "how": draw(st.sampled_from(["pdf", "pdf", "plain"])),
        "known": draw(st.one_of(st.none(), st.integers(0, 3))),
        "fixed": draw(st.booleans()),
        "extra": draw(st.booleans()),
    }


@LAWS.law(clean, quick=120, thorough=3000, rule="non-trivial: >= 2 peaks")
def recovery(c, note):
    """Separated peaks on a known baseline are found, all and only, with their positions, widths and areas."""
    if c["how"] == "plain":
        c["qmax"] = 0.0
    pf, r, y, b = data(c)
    e = c["level"] * np.ptp(y) * np.ones(len(r))
    p = PDFPeakExtraction() if c["how"] == "pdf" else PeakExtraction()
    p.setdata(r, y, None, e)
    pfs = [pf] + ([ref.make_pf(c["kind"], 0.5)] if c["extra"] else [])
    kw = {"pf": pfs, "cres": c["cres"], "error_method": mc.evaluator(c["eval"])}
    if b is not None:
        kw["baseline"] = b
    if c["how"] == "pdf":
        kw.update(qmax=c["qmax"], nyquist=c["nyquist"])
    known = None
    if c["known"] is not None:
        t = c["truth"][c["known"] % len(c["truth"])]
        known = pf.actualize(list(t), "pwa")
        known.removable = False
        if c["fixed"]:
            known.free = np.array([False, True, True])
        kw["initial_peaks"] = Peaks([known])
        note("with an initial peak")
    p.setvars(quiet=True, **kw)
    cov = p.extract() if c["how"] == "pdf" else p.extract_single()
    m = p.extracted.model
    want = np.array(c["truth"])
    # with ripples the peaks are pruned before the last fit of the baseline, which may empty one of them
    real = [i for i, q in enumerate(m) if not c["qmax"] or np.max(np.abs(q.value(r))) > 0.5 * e[0]]
    got = pwa([m[i] for i in real])
    check(len(got) == len(want), "%d peaks found, %d present: %s, expected %s", len(got), len(want), got, want)
    tol = [0.02, 0.03, 0.3] if c["qmax"] else [1e-3, 1e-3, 1e-2]
    rel = [0, 0.05, 0.08] if c["qmax"] else [0, 0.005, 0.005]
    bad = np.abs(got - want) > np.array(tol) + np.array(rel) * np.abs(want)
    check(not np.any(bad), "peaks %s, expected %s", got, want)
    check(p.extraction_type == ("extract" if c["how"] == "pdf" else "extract_single"), "type %r", p.extraction_type)
    if known is not None and c["fixed"]:
        i = int(np.argmin(np.abs(got[:, 0] - known["position"])))
        i = real[i]
        check(m[i]["position"] == known["position"] and not m[i].getfree("position") and not m[i].removable, "the fixed peak moved to %s", m[i])
    for q in m:
        o = q.owner()
        if c["qmax"]:
            check(isinstance(o, TerminationRipples) and o.qmax == c["qmax"] and o.base in pfs, "peak function %r", o)
        else:
            check(o in pfs, "peak function %r", o)
    covariance(p, cov, c["kind"], note, True)
    note("ripples" if c["qmax"] else "plain")
    return len(want) >= 2


@st.composite
def noisy(draw):
    q = draw(st.booleans())
    c = draw(clean())
    c.update(
        truth=c["truth"][:2],
        fixbase=draw(st.booleans()),
        again=draw(st.integers(0, 3)) == 3,
        qmax=draw(gen.floats(15, 30)) if q else 0.0,
        dr=0.05,
        level=draw(st.sampled_from([0.05, 0.1, 0.2])),
        noise=draw(gen.floats(0.2, 1.0)),
        seed=draw(st.integers(0, 10**6)),
        rng=draw(st.one_of(st.none(), st.tuples(gen.floats(-0.1, 0.3), gen.floats(0.6, 1.1)).map(list))),
        estimate=draw(st.booleans()),
        scale=draw(st.booleans()),
        removable=draw(st.booleans()),
        static=draw(st.booleans()),
        super=draw(st.sampled_from([1.0, 2.0, 4.0])),
        negative=draw(st.booleans()),
        more=draw(st.integers(0, 2)),
        fine=draw(st.booleans()),
        rise=draw(st.sampled_from([0.0, 0.0, 0.5, -0.4])),
    )
    if c["fine"]:
        c["dr"] = 0.03
    return c


def prepare(c):
    pf, r, y, b = data(c)
    e = c["level"] * np.ptp(y) * (1 + c["rise"] * np.linspace(0, 1, len(r)))
    y = y + c["noise"] * e * np.random.default_rng(c["seed"]).normal(size=len(r))
    if c["negative"]:
        y = y - np.max(y) * 0.6
    if b is not None and c["fixbase"]:
        b.free = np.array([False] * len(b.free))
    p = PDFPeakExtraction() if c["how"] == "pdf" else PeakExtraction()
    p.setdata(r, y, None, e)
    kw = {"pf": [pf], "cres": c["cres"], "error_method": mc.evaluator(c["eval"])}
    if c["estimate"]:
        kw["baseline"] = Polynomial(1)
    elif b is not None:
        kw["baseline"] = b
    if c["how"] == "pdf":
        kw.update(qmax=c["qmax"], nyquist=c["nyquist"], supersample=c["super"], scale=c["scale"])
    if c["rng"] is not None:
        kw["rng"] = [r[0] + f * (r[-1] - r[0]) for f in c["rng"]]
    initial = None
    if c["known"] is not None:
        lo, hi = (r[0], r[-1]) if c["rng"] is None else kw["rng"]
        lo, hi = max(lo, r[0]), min(hi, r[-1])
        initial = Peaks()
        for i in range(1 + c["more"]):
            pk = pf.actualize([lo + (i + 1) / (2 + c["more"]) * (hi - lo), 0.3, 2.0], "pwa")
            pk.removable = c["removable"]
            pk.static_owner = c["static"] and i == 0
            if c["fixed"]:
                pk.free = np.array([False, True, True])
            initial.append(pk)
        kw["initial_peaks"] = initial
    return pf, r, y, e, p, kw, initial


def describe(p):
    m = p.extracted
    return [[float(v) for v in q.pars] for q in m.model], [float(v) for v in m.baseline.pars]


@LAWS.law(noisy, quick=50, thorough=2000, rule="non-trivial: >= 1 peak found in noisy data")
def validity(c, note):
    """Whatever the data, the result is a valid model of them in the range asked for, and neither settings nor data change."""
    if c["how"] == "plain":
        c["qmax"] = 0.0
    pf, r, y, e, p, kw, initial = prepare(c)
    p.setvars(quiet=True, **kw)
    base0 = p.baseline.copy()
    init0 = p.initial_peaks.copy()
    lo, hi = max(r[0], p.rng[0]), min(r[-1], p.rng[1])
    before = {k: getattr(p, k) for k in ("cres", "pf", "error_method", "rng")}
    cov = p.extract() if c["how"] == "pdf" else p.extract_single()
    m = p.extracted
    # the settings
    check(p.baseline == base0 and p.initial_peaks == init0, "extraction changed the given baseline or peaks")
    check(all(getattr(p, k) == v for k, v in before.items()), "extraction changed a setting")
    check(np.array_equal(p.x, r) and np.array_equal(p.y, y) and np.array_equal(p.dy, e), "extraction changed the data")
    # the data modelled
    s = (r >= lo) & (r <= hi)
    nyq = c["how"] == "pdf" and c["qmax"] > 0 and c["nyquist"]
    x1 = m.r_cluster
    check(len(x1) == len(m.r_data) and x1[0] >= lo - 1e-9 and x1[-1] <= hi + 1e-9, "range %s of [%r, %r]", x1, lo, hi)
    if c["how"] == "plain" or not c["qmax"]:
        check(len(x1) == np.sum(s) and np.allclose(x1, r[s], rtol=1e-12) and np.allclose(m.y_cluster, y[s], rtol=1e-9, atol=1e-9 * np.ptp(y)) and np.allclose(m.error_cluster, e[s], rtol=1e-12), "the data modelled differ")
    elif nyq:
        d = x1[1] - x1[0]
        check(d <= np.pi / c["qmax"] + 1e-9, "spacing %r, Nyquist interval %r", d, np.pi / c["qmax"])
        if d < np.pi / c["qmax"] - 1e-9:
            note("oversampled")
        x2, y2, _, e2 = p.resampledata(d)
        k = min(len(x1), len(x2))
        check(abs(len(x1) - len(x2)) <= 1 and np.allclose(m.y_cluster[:k], y2[:k], atol=1e-6 * np.ptp(y)) and np.allclose(m.error_cluster[:k], e2[:k]), "resampled data differ")
    else:
        # supersampled, or as they are if they are so already
        d, have = np.pi / c["qmax"] / c["super"], (r[-1] - r[0]) / (len(r) - 1)
        if d < have * (1 - 1e-9):
            x2, y2, _, e2 = p.resampledata(d)
            note("supersampled")
        elif d > have * (1 + 1e-9):
            x2, y2, e2 = r[s], y[s], p.errorscale(have) * e[s]
            note("fine enough")
        else:
            x2, y2, e2 = x1, m.y_cluster, m.error_cluster
        check(len(x1) == len(x2) and np.allclose(x1, x2, rtol=1e-12) and np.allclose(m.y_cluster, y2, rtol=1e-9, atol=1e-9 * np.ptp(y)) and np.allclose(m.error_cluster, e2, rtol=1e-9), "the data modelled differ")
    # the peaks
    check(np.all(np.isfinite(m.value())), "values not finite")
    pos = [q["position"] for q in m.model]
    check(pos == sorted(pos), "peaks are not sorted: %s", pos)
    for q, t in zip(m.model, pwa(m.model)):
        check(np.all(np.isfinite(t)) and 0 < t[1] <= 0.7 + 1e-9 and t[2] >= 0, "peak %s", t)
        o = q.owner()
        if c["qmax"] and not q.static_owner:
            check(isinstance(o, TerminationRipples) and o.qmax == c["qmax"] and o.base is pf, "peak function %r", o)
        else:
            check(o is pf, "peak function %r", o)
    check(type(m.baseline.owner()) is type(base0.owner()), "baseline %r", m.baseline)
    for i, f in enumerate(base0.free):
        check(bool(m.baseline.free[i]) == bool(f) and (f or m.baseline.pars[i] == base0.pars[i]), "fixed baseline parameter %d became %r, was %r", i, m.baseline.pars[i], base0.pars[i])
    if initial is not None and not c["removable"]:
        keep = [q for q in m.model if not q.removable]
        check(len(keep) == len(initial), "%d of %d peaks marked as not removable are left", len(keep), len(initial))
        check(sum(bool(q.static_owner) for q in keep) == int(c["static"]), "owner of the initial peak")
        if c["fixed"]:
            check([q["position"] for q in keep] == [q["position"] for q in initial], "fixed positions moved to %s", [q["position"] for q in keep])
        note("initial peak kept")
    covariance(p, cov, c["kind"], note, True)
    # every peak earns its place (pruning comes before the last fit of ripples or baseline)
    settled = not c["qmax"] and len(m.baseline.pars) == sum(1 for f in m.baseline.free if not f)
    full = m.quality()
    for i, q in enumerate(m.model):
        if not settled or not q.removable:
            continue
        less = type(m)(m)
        less.model = Peaks([w.copy() for j, w in enumerate(m.model) if j != i])
        check(less.quality().stat >= full.stat - 2.0, "without peak %d (%s) the model is better: %r, %r", i, q, less.quality().stat, full.stat)
    note(c["how"])
    if c["negative"]:
        note("negative")
    # again, on the same object and another
    if not c["again"]:
        return len(m.model) > 0
    note("again")
    first = describe(p)
    p.extract() if c["how"] == "pdf" else p.extract_single()
    check(describe(p) == first, "a second extraction gives %s, the first %s", describe(p), first)
    other = PDFPeakExtraction() if c["how"] == "pdf" else PeakExtraction()
    other.setdata(list(r), list(y), None, list(e))
    pf2, _, _, _, _, kw2, _ = prepare(c)
    other.setvars(quiet=True, **kw2)
    other.extract() if c["how"] == "pdf" else other.extract_single()
    check(describe(other) == first, "another object gives %s, the first %s", describe(other), first)
    return len(m.model) > 0


@st.composite
def crowd(draw):
    n = draw(st.integers(2, 4))
    gaps = [draw(gen.floats(0.3, 0.6)) for _ in range(n)]
    return {
        "pos": [2.0 + sum(gaps[: i + 1]) for i in range(n)],
        "area": [draw(gen.floats(2, 5)) for _ in range(n)],
        "keep": draw(st.lists(st.sampled_from([True, True, False]), min_size=n, max_size=n)),
        "kind": draw(ref.KINDS),
        "qmax": draw(gen.floats(6, 22)),
        "free": draw(st.sampled_from([[True] * 3, [True] * 3, [False, True, True]])),
        "eval": draw(st.sampled_from(["AIC", "AICc"])),
        "rng": draw(st.booleans()),
    }


@LAWS.law(crowd, quick=14, thorough=300, rule="non-trivial: more free parameters than points at the Nyquist interval")
def crowded(c, note):
    """With Nyquist sampling the result is on the Nyquist grid, or, if this has fewer points than parameters, on the coarsest which suffices, with a warning."""
    pf = ref.make_pf(c["kind"], 0.7)
    r = np.arange(1.5, c["pos"][-1] + 0.5, 0.04)
    truth = [pf.actualize([x, 0.3, a], "pwa") for x, a in zip(c["pos"], c["area"])]
    rip = TerminationRipples(pf, c["qmax"])
    y = np.sum([rip.actualize([x, 0.3, a], "pwa").value(r) for x, a in zip(c["pos"], c["area"])], axis=0)
    p = PDFPeakExtraction()
    p.setdata(r, y, None, 0.04 * np.ptp(y) * np.ones(len(r)))
    for q, k in zip(truth, c["keep"]):
        q.removable = not k
        q.free = np.array(c["free"])
    kw = {"rng": [1.8, r[-1]]} if c["rng"] else {}
    p.setvars(quiet=True, pf=[pf], cres=0.15, error_method=mc.evaluator(c["eval"]), qmax=c["qmax"], nyquist=True, initial_peaks=Peaks(truth), **kw)
    with boot.listening() as seen:
        p.extract()
    seen = [t for lev, t in seen if lev >= logging.WARNING and "Nyquist" in t]
    m = p.extracted
    x = m.r_cluster
    n = sum(sum(map(bool, q.free)) for q in m.model)
    span = (r[-1] - 1.8) if c["rng"] else (r[-1] - r[0])
    d, ny = x[1] - x[0], np.pi / c["qmax"]
    check(np.allclose(np.diff(x), d, rtol=1e-6), "the grid is not regular: %s", x)
    check(sum(not q.removable for q in m.model) == sum(c["keep"]), "%d peaks may not be removed, %d are left", sum(c["keep"]), len(m.model))
    check(len(x) > n, "%d points, %d free parameters", len(x), n)
    x2, y2, _, e2 = p.resampledata(d)
    k = min(len(x), len(x2))
    check(abs(len(x) - len(x2)) <= 1 and np.allclose(m.y_cluster[:k], y2[:k], atol=1e-6 * np.ptp(y)) and np.allclose(m.error_cluster[:k], e2[:k]), "resampled data differ")
    if n >= 1.05 * span / ny:
        check(abs(d * n / span - 1) < 0.1, "%d parameters on a range of %r (Nyquist interval %r) at the interval %r", n, span, ny, d)
        check(len(seen) == 1, "warnings %s", seen)
        note("oversampled")
        return True
    if n < 0.9 * span / ny:
        check(abs(d / ny - 1) < 1e-6, "%d parameters on a range of %r (Nyquist interval %r) at the interval %r", n, span, ny, d)
        check(not seen, "warnings %s", seen)
        note("Nyquist")
    return False
