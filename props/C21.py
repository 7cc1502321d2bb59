"""Peaks estimated at a point, added by hand and fitted."""

import numpy as np
from hypothesis import strategies as st

from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.terminationripples import TerminationRipples
from harness import boot, gen, mc, ref
from harness.core import LawSet, check
from props import C20

LAWS = LawSet(
    "C21",
    assumptions=[
        "estimates are compared with the truth for separated peaks on a known baseline, without noise, at points near a peak",
        "fits start within 15% of the true widths and 30% of the true areas",
    ],
)


@st.composite
def desk(draw):
    """Data and things done by hand."""
    truth = draw(C20.truth(0.15, 1.5))
    n = len(truth)
    op = st.one_of(
        st.tuples(st.just("estimate"), st.integers(0, n - 1), gen.floats(-0.2, 0.2), st.booleans()),
        st.tuples(st.just("estimate"), st.integers(0, n - 1), gen.floats(-0.2, 0.2), st.just(True)),
        st.tuples(st.just("outside"), st.booleans(), st.sampled_from([1e-6, 0.5, 100.0]), st.booleans()),
        st.tuples(st.just("add"), st.lists(st.tuples(gen.floats(1.5, 9), gen.floats(0.1, 0.6), gen.floats(0.5, 9)), max_size=3)),
        st.tuples(st.just("truth"), st.integers(0, n - 1)),
        st.tuples(st.just("edge"), st.booleans(), st.booleans()),
        st.tuples(st.just("none"), st.integers(0, n - 1)),
        st.tuples(st.just("fit")),
        st.tuples(st.just("clear")),
        st.tuples(st.just("forget")),
    )
    return {
        "truth": truth,
        "kind": draw(ref.KINDS),
        "qmax": 0.0,
        "dr": draw(st.sampled_from([0.02, 0.05])),
        "base": draw(st.sampled_from(["none", "slope", "nano"])),
        "slope": draw(gen.floats(0, 0.6)),
        "how": draw(st.sampled_from(["pdf", "plain"])),
        "cres": draw(st.sampled_from([0.1, 0.2])),
        "level": draw(st.sampled_from([0.005, 0.02, 0.05])),
        "eval": draw(st.sampled_from(["AIC", "AICc"])),
        "crop": draw(st.one_of(st.none(), gen.floats(0.01, 0.5))),
        "ops": [list(o) for o in draw(st.lists(op, min_size=1, max_size=9))],
    }


def rows(peaks):
    return [[float(v) for v in r] for r in C20.pwa(peaks)]


def same(a, b):
    """The same peaks, in order of position (those at one position in any order)."""
    if any(u[0] > v[0] for u, v in zip(a, a[1:])):
        return False
    a, b = (sorted([round(x, 7) for x in v] for v in w) for w in (a, b))
    return len(a) == len(b) and np.allclose(np.array(a).reshape(-1, 3), np.array(b).reshape(-1, 3), rtol=1e-6, atol=1e-6)


@LAWS.law(desk, quick=300, thorough=3000, rule="non-trivial: a peak estimated at a point where one is missing")
def manual(c, note):
    """A peak estimated near a point is the one there which is not modelled yet; it goes where peaks are kept, in order, only if asked."""
    pf, r, y, b = C20.data(c)
    e = c["level"] * np.ptp(y) * np.ones(len(r))
    p = PDFPeakExtraction() if c["how"] == "pdf" else PeakExtraction()
    p.setdata(r, y, None, e)
    kw = {"pf": [pf], "cres": c["cres"], "error_method": mc.evaluator(c["eval"])}
    if b is not None:
        b.free = np.array([False] * len(b.free))
        kw["baseline"] = b
    if c["crop"] is not None:
        kw["rng"] = [r[0] + c["crop"], r[-1] - c["crop"]]
    if c["how"] == "pdf":
        kw.update(qmax=0.0)
    p.setvars(quiet=True, **kw)
    height = {tuple(t): np.max(pf.actualize(list(t), "pwa").value(r)) for t in c["truth"]}
    s = (r >= p.rng[0]) & (r <= p.rng[1])
    lo, hi = r[s][0], r[s][-1]
    initial, result = [], None  # what should be there
    nontrivial = False
    exact = True  # only peaks of the truth so far
    for op in c["ops"]:
        what = op[0]
        here = initial if result is None else result
        if what == "estimate":
            t = c["truth"][op[1]]
            x = t[0] + op[2] * t[1]
            q = p.estimate_peak(x, op[3]) if not op[3] or op[2] > 0 else p.estimate_peak(x)
            have = any(abs(h[0] - t[0]) < 1e-2 for h in here)
            clear = height[tuple(t)] > 4 * e[0]  # well above the uncertainty
            if exact and not have and clear:
                check(q is not None, "no peak found at %r, expected %s", x, t)
                g = rows([q])[0]
                ok = abs(g[0] - t[0]) < 2e-3 and abs(g[1] - t[1]) < 0.01 * t[1] + 1e-3 and abs(g[2] - t[2]) < 0.01 * t[2] + 1e-3
                check(ok, "peak found at %r: %s, expected %s", x, g, t)
                nontrivial = True
                note("estimated")
            elif exact and have and q is not None and not any(np.allclose(rows([q])[0], w, rtol=0.01, atol=2e-3) for w in c["truth"] if not any(abs(h[0] - w[0]) < 1e-2 for h in here)):
                v = np.max(np.abs(q.value(r)))
                check(v < e[0], "a peak %s is found at %r, where all is modelled", q, x)
            if q is not None and op[3]:
                here.append(rows([q])[0])
                if not any(np.allclose(here[-1], w, rtol=0.01, atol=2e-3) for w in c["truth"]):
                    exact = False
        elif what == "outside":
            x = lo - op[2] if op[1] else hi + op[2]
            try:
                q = p.estimate_peak(x, op[3])
            except ValueError:
                pass
            else:
                check(False, "a peak is estimated at %r, range [%r, %r]: %s", x, lo, hi, q)
            note("outside")
        elif what == "edge":
            q = p.estimate_peak(lo if op[1] else hi, op[2])
            if q is not None and op[2]:
                here.append(rows([q])[0])
                exact = exact and any(np.allclose(here[-1], w, rtol=0.01, atol=2e-3) for w in c["truth"])
            note("edge")
        elif what == "none":
            p.initial_peaks = None
            t = c["truth"][op[1]]
            if result is None:
                p.add_peaks(Peaks([pf.actualize(list(t), "pwa")]))
                initial = [list(t)]
                exact = True
            else:
                p.defaultvars()
                initial = []
        elif what == "add":
            new = Peaks([pf.actualize(list(v), "pwa") for v in op[1]])
            kept = [list(q.pars) for q in new]
            p.add_peaks(new)
            check([list(q.pars) for q in new] == kept, "adding peaks changed them")
            here.extend([list(v) for v in op[1]])
            exact = exact and not op[1]
        elif what == "truth":
            t = c["truth"][op[1]]
            if any(abs(h[0] - t[0]) < 1e-2 for h in here):
                continue
            p.add_peaks(Peaks([pf.actualize(list(t), "pwa")]))
            here.append(list(t))
        elif what == "fit":
            if not exact:
                continue
            p.fit() if c["how"] == "pdf" else p.fit_single()
            result = [list(v) for v in initial]
            note("fitted")
            check(p.extraction_type == ("fit" if c["how"] == "pdf" else "fit_single"), "type %r", p.extraction_type)
        elif what == "clear":
            p.clearcalc()
            result = None
        elif what == "forget":
            p.clearvars() if False else p.setvars(quiet=True, initial_peaks=Peaks())
            initial = []
        initial.sort()
        if result is not None:
            result.sort()
        if result is None and not initial:
            exact = True
        got = rows(p.initial_peaks)
        check(same(got, initial), "after %s: initial peaks %s, expected %s", op, got, initial)
        if result is None:
            check(p.extracted is None, "after %s: a result", op)
        else:
            got = rows(p.extracted.model)
            if what == "fit":
                # few points or overlapping leftovers: the truth must be a fixed point of the fit
                check(len(got) == len(result), "fit of %s gives %s", result, got)
                result = got
            check(same(got, result), "after %s: extracted peaks %s, expected %s", op, got, result)
    return nontrivial


@st.composite
def guess(draw):
    q = draw(st.booleans())
    truth = draw(C20.truth(*((0.25, 1.3, 5) if q else (0.15, 1.1))))
    return {
        "truth": truth,
        "start": [
            {
                "pos": draw(gen.floats(-0.2, 0.2)),
                "width": draw(gen.floats(0.85, 1.15)),
                "area": draw(gen.floats(0.7, 1.3)),
                "fixed": draw(st.one_of(st.just([]), st.lists(st.integers(0, 2), max_size=3, unique=True))),
                "removable": draw(st.booleans()),
                "ripples": draw(st.booleans()),
            }
            for _ in truth
        ],
        "kind": draw(ref.KINDS),
        "qmax": draw(gen.floats(20, 30)) if q else 0.0,
        "nyquist": draw(st.booleans()),
        "dr": draw(st.sampled_from([0.02, 0.05])),
        "base": draw(st.sampled_from(["none", "slope", "nano"])),
        "slope": draw(gen.floats(0.02, 0.6)),  # minpack never ends on data which are exactly zero
        "bfree": draw(st.booleans()),
        "shift": draw(st.tuples(gen.floats(-0.1, 0.1), gen.floats(-0.2, 0.2)).map(list)),
        "level": draw(st.sampled_from([0.01, 0.03])),
        "noise": draw(st.sampled_from([0.0, 0.0, 0.5, 1.0])),
        "seed": draw(st.integers(0, 10**6)),
        "how": draw(st.sampled_from(["pdf", "pdf", "plain"])),
        "eval": draw(st.sampled_from(["AIC", "AICc"])),
        "rng": draw(st.one_of(st.none(), st.tuples(gen.floats(-0.1, 0.1), gen.floats(0.9, 1.1)).map(list))),
        "scale": draw(st.booleans()),
        "rise": draw(st.sampled_from([0.0, 0.0, 0.5])),
        "unset": draw(st.booleans()),
    }


@LAWS.law(guess, quick=250, thorough=3000, rule="non-trivial: >= 2 peaks, or noise")
def fits(c, note):
    """Fitting starts from the peaks given, keeps their number and whatever is fixed, and ends at the least squares over the data asked for."""
    if c["how"] == "plain":
        c["qmax"] = 0.0
    pf, r, y, b = C20.data(c)
    e = c["level"] * np.ptp(y) * (1 + c["rise"] * np.linspace(0, 1, len(r)))
    y = y + c["noise"] * e * np.random.default_rng(c["seed"]).normal(size=len(r))
    p = PDFPeakExtraction() if c["how"] == "pdf" else PeakExtraction()
    p.setdata(r, y, None, e)
    kw = {"pf": [pf], "error_method": mc.evaluator(c["eval"])}
    if b is not None:
        start = b.copy()
        start.free = np.array([c["bfree"] and c["base"] == "slope"] * len(b.free))
        if c["bfree"] and c["base"] == "slope":
            start.pars = start.pars + np.array(c["shift"])
        kw["baseline"] = start
    if c["how"] == "pdf":
        kw.update(qmax=c["qmax"], nyquist=c["nyquist"], scale=c["scale"])
    if c["rng"] is not None:
        kw["rng"] = [r[0] + f * (r[-1] - r[0]) for f in c["rng"]]
    f = TerminationRipples(pf, c["qmax"]) if c["qmax"] else pf
    peaks = []
    for t, s in zip(c["truth"], c["start"]):
        v = [t[0] + s["pos"] * t[1], min(t[1] * s["width"], 0.69), t[2] * s["area"]]
        v = [t[i] if i in s["fixed"] else v[i] for i in range(3)]
        q = f.actualize(v, "pwa", free=[i not in s["fixed"] for i in range(3)], removable=s["removable"])
        peaks.append(q)
    given = Peaks(peaks)
    kw["initial_peaks"] = given
    p.setvars(quiet=True, **kw)
    before = [list(q.pars) for q in given]
    if c["unset"]:  # left to the defaults
        p.error_method = p.cres = None
        if b is None:
            p.baseline = None
        if c["rng"] is None:
            p.rng = None
    cov = p.fit() if c["how"] == "pdf" else p.fit_single()
    check([list(q.pars) for q in given] == before and list(given) == peaks, "fitting changed the peaks given")
    m = p.extracted
    check(len(m.model) == len(peaks), "%d peaks fitted, %d given", len(m.model), len(peaks))
    lo, hi = max(r[0], p.rng[0]), min(r[-1], p.rng[1])
    x1 = m.r_cluster
    if c["how"] == "pdf" and c["qmax"] and c["nyquist"]:
        check(abs(x1[1] - x1[0] - np.pi / c["qmax"]) < 1e-6, "spacing %r", x1[1] - x1[0])
        note("Nyquist")
    else:
        s = (r >= lo) & (r <= hi)
        check(np.array_equal(x1, r[s]) and np.array_equal(m.y_cluster, y[s]), "the data fitted differ")
    check(np.allclose(m.error_cluster, np.interp(x1, r, e), rtol=1e-9), "uncertainties of the fit %s", m.error_cluster)
    got = sorted(rows(m.model))
    for g, t, s in zip(got, c["truth"], c["start"]):
        for i in s["fixed"]:
            check(abs(g[i] - t[i]) < 1e-9 * (1 + abs(t[i])), "fixed parameter %d of %s became %r", i, t, g[i])
    for q, s in zip(m.model, c["start"]):
        check([bool(v) for v in q.free] == [i not in s["fixed"] for i in range(3)] and q.removable == s["removable"] and q.owner() is f, "flags of %s", q)
    # the truth is no better
    true = sum(f.actualize(list(t), "pwa").value(x1) for t in c["truth"]) + (b.value(x1) if b is not None else 0.0)
    chi = lambda v: float(np.sum(((m.y_cluster - v) / m.error_cluster) ** 2))  # noqa: E731
    free = sum(int(np.sum(q.free)) for q in m.model) + int(np.sum(m.baseline.free))
    if free and free < len(x1):
        check(chi(m.value()) <= chi(true) + 0.05 + 0.01 * chi(true), "chi squared of the fit %r, of the truth %r", chi(m.value()), chi(true))
        if not c["noise"] and not (c["qmax"] and c["nyquist"]):
            check(np.max(np.abs(m.value() - true)) < 1e-2 * np.ptp(y), "the fit is off by %r", np.max(np.abs(m.value() - true)))
    C20.covariance(p, cov, c["kind"], note, True)
    note("ripples" if c["qmax"] else "plain")
    if c["noise"]:
        note("noise")
    return len(peaks) >= 2 or bool(c["noise"])


@st.composite
def finished(draw):
    return {
        "truth": draw(C20.truth(0.15, 1.3)),
        "kind": draw(ref.KINDS),
        "qmax": 0.0,
        "dr": 0.05,
        "base": "slope",
        "slope": draw(gen.floats(0, 0.6)),
        "shift": draw(st.tuples(gen.floats(-0.2, 0.2), gen.floats(-2, 2)).map(list)),
        "level": draw(st.sampled_from([0.01, 0.03])),
        "how": draw(st.sampled_from(["pdf", "plain"])),
        "at": draw(st.lists(gen.floats(0, 1), min_size=1, max_size=4)),
        "more": draw(gen.floats(0, 1)),
        "add": draw(st.booleans()),
    }


@LAWS.law(finished, quick=100, thorough=1500, rule="non-trivial: the fit moved the baseline by more than the uncertainty")
def leftover(c, note):
    """After a fit of peaks and baseline nothing but what the fitted model leaves is estimated, wherever asked."""
    pf, r, y, b = C20.data(c)
    e = c["level"] * np.ptp(y) * np.ones(len(r))
    p = PDFPeakExtraction() if c["how"] == "pdf" else PeakExtraction()
    p.setdata(r, y, None, e)
    start = b.copy()
    start.pars = start.pars + np.array(c["shift"])
    kw = {"pf": [pf], "cres": 0.15, "baseline": start, "initial_peaks": Peaks([pf.actualize(list(t), "pwa") for t in c["truth"]])}
    if c["how"] == "pdf":
        kw["qmax"] = 0.0
    p.setvars(quiet=True, **kw)
    p.fit() if c["how"] == "pdf" else p.fit_single()
    m = p.extracted
    if np.max(np.abs(m.residual())) > 0.5 * e[0]:
        note("not fitted")
        return False
    n = len(m.model)
    for f in c["at"]:
        q = p.estimate_peak(r[0] + f * (r[-1] - r[0]), add=False)
        check(q is None or np.max(np.abs(q.value(r))) < e[0], "a peak %s is found where all is modelled", q)
    check(len(m.model) == n, "a peak was added")
    # what is taken out of the model is found again
    if n >= 2:
        k = int(c["more"] * n) % n
        t = rows(m.model)[k]
        m.deletepeak(k)
        q = p.estimate_peak(t[0], add=c["add"])
        if np.max(pf.actualize(t, "pwa").value(r)) > 4 * e[0]:
            check(q is not None and np.allclose(rows([q])[0], t, rtol=0.02, atol=5e-3), "found %s, expected %s", q, t)
        check(len(m.model) == n - 1 + (c["add"] and q is not None), "%d peaks", len(m.model))
        pos = [w["position"] for w in m.model]
        check(pos == sorted(pos), "peaks are not in order: %s", pos)
        check(len(p.initial_peaks) == n, "the initial peaks changed")
        note("found again")
    return bool(np.max(np.abs(m.baseline.value(r) - start.value(r))) > e[0])


@st.composite
def spaced(draw):
    return {
        "dr": draw(st.sampled_from([0.02, 0.05, 0.1])),
        "n": draw(st.integers(16, 60)),
        "f": draw(st.sampled_from([0.5, 0.9, 0.999, 1.001, 1.1, 1.6])),
        "gap": draw(st.sampled_from([1.0, 1.0, 2.0])),
        "nyquist": draw(st.booleans()),
        "ripples": draw(st.booleans()),
        "fixed": draw(st.booleans()),
    }


@LAWS.law(spaced, quick=60, thorough=600, rule="non-trivial: qmax given")
def spacing(c, note):
    """A fit warns of data sampled more coarsely than the Nyquist interval, and only of these, whatever the resampling."""
    r = 2 + c["dr"] * np.arange(c["n"])
    r[c["n"] // 2 :] += (c["gap"] - 1) * c["dr"]
    dr = (r[-1] - r[0]) / (len(r) - 1)
    q = c["f"] * np.pi / dr if c["ripples"] else 0.0
    pf = ref.make_pf("R", 0.7)
    t = [r[c["n"] // 2], 0.4, 5.0]
    y = ref.peakvalue("R", *t, r)
    p = PDFPeakExtraction()
    p.setdata(r, y, None, 0.1 * np.ones(len(r)))
    given = Peaks([pf.actualize(t, "pwa", free=[not c["fixed"], True, True])])
    p.setvars(quiet=True, pf=[pf], qmax=q, nyquist=c["nyquist"], initial_peaks=given, baseline=Polynomial(0).actualize([0.1]))
    with boot.listening(30) as seen:
        p.fit()
    coarse = q > 0 and c["f"] > 1
    check(any("missing information" in m for _, m in seen) == coarse, "qmax %r, spacing %r: %s", q, dr, seen)
    check(len(p.extracted.model) == 1, "%d peaks", len(p.extracted.model))
    x1 = p.extracted.r_cluster
    d = np.diff(x1)
    if c["nyquist"] and q:
        check(np.allclose(d, np.pi / q, rtol=1e-6), "spacing %s, Nyquist interval %r", d, np.pi / q)
        check(x1[0] >= r[0] and x1[-1] <= r[-1] + 1e-9 and r[-1] - x1[-1] < np.pi / q * (1 + 1e-6), "range %r, %r of data in %r, %r", x1[0], x1[-1], r[0], r[-1])
    else:
        check(np.array_equal(x1, r), "the data were resampled")
    if coarse:
        note("coarse")
    return q > 0
