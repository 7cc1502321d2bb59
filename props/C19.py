"""Settings of an extraction and their defaults."""

import numpy as np
from hypothesis import strategies as st

from diffpy.srmise.baselines.base import Baseline
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction, find_qmax
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.srmiseerrors import SrMiseQmaxError
from harness import gen
from harness.core import LawSet, check

LAWS = LawSet("C19", assumptions=["data have at least 4 points and are not constant", "scalar uncertainties are positive"])

COMMON = ["cres", "effective_dy", "pf", "baseline", "error_method", "initial_peaks", "rng"]
EXTRA = ["qmax", "nyquist", "scale", "supersample"]


@st.composite
def data(draw):
    n = draw(st.integers(4, 24))
    return {
        "x0": draw(st.one_of(gen.floats(0.1, 5), gen.floats(0.1, 5), st.sampled_from([-0.2, 0.0, -1.0]))),
        "dx": draw(st.sampled_from([0.05, 0.1, 0.5])),
        "y": draw(st.lists(st.integers(-50, 50).map(lambda v: v / 8.0), min_size=n - 1, max_size=n - 1)) + [7.0],
        "dy": draw(st.sampled_from(["none", "positive", "partly"])),
    }


SET = {
    "cres": gen.floats(0, 2),
    "effective_dy": st.one_of(gen.floats(0.1, 5), st.just("array"), st.just("int")),
    "pf": st.sampled_from(["G", "R", "GR"]),
    "baseline": st.sampled_from(["poly1", "poly-1", "part", "none"]),
    "error_method": st.sampled_from(["AIC", "AICc"]),
    "initial_peaks": st.sampled_from(["none", "one", "empty"]),
    "rng": st.one_of(
        st.none(), st.tuples(st.one_of(st.none(), gen.floats(-0.3, 0.4), st.just("zero")), st.one_of(st.none(), gen.floats(0.6, 1.3)), st.booleans()).map(list)
    ),
    "qmax": st.one_of(gen.floats(1, 40), st.just(0.0), st.just("automatic"), st.none()),
    "nyquist": st.sampled_from([True, False, None]),
    "scale": st.sampled_from([True, False, None]),
    "supersample": st.sampled_from([1.0, 1, 2.5, 8, 0.5, 0.999]),
}


@st.composite
def history(draw):
    pdf = draw(st.booleans())
    names = COMMON + (EXTRA if pdf else [])
    step = st.one_of(
        st.tuples(st.just("set"), st.lists(st.sampled_from(names), min_size=1, max_size=4, unique=True)),
        st.tuples(st.just("set"), st.lists(st.sampled_from(names), min_size=1, max_size=4, unique=True)),
        st.tuples(st.just("default"), st.lists(st.sampled_from(names), max_size=3, unique=True)),
        st.tuples(st.just("data"), data()),
        st.tuples(st.just("load"), data()),
        st.tuples(st.just("clear"), data()),
        st.tuples(st.just("bad"), st.sampled_from(["qqmax", "both", "x", "dr", "qmax" if not pdf else "dy"])),
    )
    steps = []
    for op, arg in draw(st.lists(step, min_size=2, max_size=10)):
        if op == "set":
            arg = {k: draw(SET[k]) for k in arg}
            alias = draw(st.booleans())
            steps.append([op, arg, alias])
        else:
            steps.append([op, arg, draw(gen.floats(0, 30)) if op in ("data", "load") else None])
    return {"pdf": pdf, "data": draw(data()), "steps": steps}


def arrays(d):
    y = np.array(d["y"])
    x = d["x0"] + d["dx"] * np.arange(len(y))
    dy = None
    if d["dy"] != "none":
        dy = 0.5 + 0.1 * np.arange(len(y))
        if d["dy"] == "partly":
            dy[len(y) // 2] = 0.0
    return x, y, dy


class Model:
    """What the settings should be."""

    def __init__(self, pdf):
        self.pdf = pdf
        self.clear()

    def clear(self):
        self.v = {k: None for k in COMMON + (EXTRA if self.pdf else [])}
        self.reported = self.fromdata = None

    def setdata(self, d):
        self.x, self.y, self.dy = arrays(d)
        if self.pdf:
            try:
                self.fromdata = find_qmax(self.x, self.y)[0]
            except Exception:
                self.fromdata = None

    def default(self, *names):
        v, x, y = self.v, self.x, self.y

        def unset(k):
            return v[k] is None or k in names

        if self.pdf:
            if unset("qmax"):
                v["qmax"] = self.reported if self.reported is not None else self.fromdata if self.fromdata is not None else 0.0
            if unset("nyquist"):
                v["nyquist"] = bool(v["qmax"] > 0)
            if unset("scale"):
                v["scale"] = False
            if unset("supersample"):
                v["supersample"] = 4.0
        if unset("cres"):
            if self.pdf and v["qmax"] > 0:
                v["cres"] = np.pi / v["qmax"]
            else:
                v["cres"] = 4 * (x[-1] - x[0]) / len(x)
        if unset("effective_dy"):
            if self.dy is not None and np.all(self.dy > 0):
                v["effective_dy"] = self.dy
            else:
                v["effective_dy"] = 0.05 * (max(y) - min(y)) * np.ones(len(x))
        elif np.ndim(v["effective_dy"]) == 0:
            v["effective_dy"] = float(v["effective_dy"]) * np.ones(len(x))
        if unset("pf"):
            v["pf"] = [("GaussianOverR", 0.7 if self.pdf else x[-1] - x[0])]
        if unset("rng"):
            v["rng"] = [x[0], x[-1]]
        else:
            v["rng"] = [e if r is None else r for r, e in zip(v["rng"], (x[0], x[-1]))]
        if v["baseline"] == "poly1":
            lo, hi = v["rng"]
            s = (x >= lo) & (x <= hi)
            try:
                p = Polynomial(1).estimate_parameters(x[s], y[s])
                v["baseline"] = ("Polynomial", [float(a) for a in p])
            except Exception:
                v["baseline"] = None
        elif v["baseline"] == "poly-1":
            v["baseline"] = ("Polynomial", [])
        if unset("baseline"):
            v["baseline"] = ("Polynomial", [])
        if unset("error_method"):
            v["error_method"] = "AIC"
        if unset("initial_peaks"):
            v["initial_peaks"] = []

    def expect(self, k):
        return self.v[k]


def value(k, s, p, given):
    """The object for a setting, and what it means to the model."""
    if s is None:
        return None, None
    if k == "effective_dy":
        if s == "array":
            a = 0.25 + 0.5 * np.arange(len(p.x))
            return a, a.copy()
        if s == "int":
            return 2, 2.0
        return s, s
    if k == "pf":
        fs = [GaussianOverR(1.5) if t == "R" else Gaussian(2.0) for t in s]
        return fs, [(type(f).__name__, 1.5 if isinstance(f, GaussianOverR) else 2.0) for f in fs]
    if k == "baseline":
        if s == "part":
            b = Polynomial(2).actualize([0.5, -1.0, 0.25])
            given.append((b, b.copy()))
            return b, ("Polynomial", [0.5, -1.0, 0.25])
        if s == "none":
            return None, None
        return Polynomial(int(s[4:])), s
    if k == "error_method":
        return {"AIC": AIC, "AICc": AICc}[s], s
    if k == "initial_peaks":
        if s == "none":
            return None, None
        pk = Peaks([GaussianOverR(0.7).actualize([2.0, 0.3, 1.0], "pwa")] if s == "one" else [])
        return pk, [2.0] if s == "one" else []
    if k == "rng":
        r = [None if f is None else max(0.0, float(p.x[0])) if f == "zero" and p.x[-1] > 1 else float(p.x[0]) if f == "zero" else float(p.x[0] + f * (p.x[-1] - p.x[0])) for f in s[:2]]
        return (tuple(r) if s[2] else list(r)), list(r)
    return s, s


def compare(p, m, what):
    for k, want in m.v.items():
        got = getattr(p, k)
        if k == "pf":
            got = [(type(f).__name__, float(f.maxwidth)) for f in got]
            ok = len(got) == len(want) and all(a[0] == b[0] and abs(a[1] - b[1]) < 1e-12 for a, b in zip(got, want))
        elif k == "baseline":
            check(isinstance(got, Baseline), "%s: the baseline is %r", what, got)
            pars = [float(a) for a in got.pars]
            ok = type(got.owner()).__name__ == want[0] and len(pars) == len(want[1]) and np.allclose(pars, want[1], rtol=1e-9)
            got = pars
        elif k == "error_method":
            got = got.__name__
            ok = got == want
        elif k == "initial_peaks":
            check(isinstance(got, Peaks), "%s: initial peaks are %r", what, got)
            got = [float(q["position"]) for q in got]
            ok = got == want
        elif k == "effective_dy":
            ok = np.shape(got) == np.shape(want) and np.allclose(got, want, rtol=1e-12)
        elif k == "rng":
            ok = [float(a) for a in got] == [float(a) for a in want]
        elif isinstance(want, bool):
            ok = bool(got) == want
        else:
            ok = abs(got - want) <= 1e-12 * (1 + abs(want))
        check(ok, "%s: %s is %r, expected %r", what, k, got, want)


@LAWS.law(history, quick=1000, rule="non-trivial: >= 2 steps which set or reset something")
def settings(c, note):
    """Settings keep the values given; unset ones take the documented defaults, from the data or the PDF; a reset or new file forgets."""
    from diffpy.srmise.pdfdataset import PDFDataSet

    p = PDFPeakExtraction() if c["pdf"] else PeakExtraction()
    m = Model(c["pdf"])
    given = []

    def setdata(d):
        x, y, dy = arrays(d)
        p.setdata(x, y, None, dy)
        m.setdata(d)

    setdata(c["data"])
    p.defaultvars()
    m.default()
    compare(p, m, "at first")
    done = 0
    for op, arg, extra in c["steps"]:
        what = "%s %s" % (op, arg)
        if op == "set":
            kw, want = {}, {}
            for k, s in arg.items():
                kw[k], want[k] = value(k, s, p, given)
            if extra and "effective_dy" in kw:
                kw["dg" if c["pdf"] else "effective_dy"] = kw.pop("effective_dy")
            held = {k: list(v) for k, v in kw.items() if isinstance(v, list)}
            error = None
            if kw.get("qmax") == "automatic":
                if m.fromdata is None:
                    error = SrMiseQmaxError
                want["qmax"] = m.fromdata
            if kw.get("supersample") is not None and kw["supersample"] < 1:
                error = ValueError if error is None else Exception
            if error is not None:
                try:
                    p.setvars(quiet=True, **kw)
                    check(False, "%s accepted", what)
                except error:
                    pass
                compare(p, m, "refused " + what)
                note("refused")
                continue
            p.setvars(quiet=bool(extra), **kw)
            m.v.update(want)
            m.default()
            for k, v in held.items():
                check(v == kw[k], "%s: the %s given was changed to %s", what, k, kw[k])
            done += 1
        elif op == "default":
            p.defaultvars(*arg)
            m.default(*arg)
            done += bool(arg)
        elif op == "data":
            setdata(arg)
            # of another length, uncertainties must be given anew
            p.defaultvars("effective_dy", "rng")
            m.default("effective_dy", "rng")
        elif op == "load" and c["pdf"]:
            x, y, dy = arrays(arg)
            ds = PDFDataSet("d")
            ds.robs, ds.Gobs, ds.qmax = list(x), list(y), extra
            ds.drobs, ds.dGobs = [0.0] * len(x), [0.0] * len(x) if dy is None else list(dy)
            p.loadpdf(ds)
            m.clear()
            m.setdata(arg)
            m.reported = extra
            p.defaultvars()
            m.default()
            done += 1
        elif op in ("clear", "load"):
            p.clear()
            m.clear()
            for k in m.v:
                check(getattr(p, k) is None, "cleared: %s is %r", k, getattr(p, k))
            check(p.x is None and p.extracted is None and p.extraction_type is None, "cleared: data left")
            setdata(arg)
            p.defaultvars()
            m.default()
        elif op == "bad":
            kw = {"cres": 0.123, arg: 1.0}
            if arg == "both":
                if not c["pdf"]:
                    continue
                kw = {"dg": 1.0, "effective_dy": 2.0}
            try:
                p.setvars(quiet=True, **kw)
                check(False, "setting %s accepted", arg)
            except ValueError:
                pass
            if arg != "both":
                m.v["cres"] = float(p.cres)  # settings before the unknown one may be in effect
        compare(p, m, what)
        for b, copy in given:
            check(b == copy, "the baseline given was changed")
    p.defaultvars()
    compare(p, m, "defaults again")
    return done >= 2
