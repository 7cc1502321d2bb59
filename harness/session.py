"""Generated extraction sessions (unsaved state): cases, objects and comparison."""

import numpy as np
from hypothesis import strategies as st

from harness import gen, ref

NUM = gen.floats(-40, 40)


def shared(fs):
    """A function may have the function before it, or its base, as base of its ripples."""
    for a, b in zip(fs, fs[1:]):
        if b["share"] and b["ripple"]:
            b.update(kind=a["kind"], max=a["max"])
        else:
            b["share"] = False
    fs[0]["share"] = False
    return fs


FUNCS = st.lists(
    st.fixed_dictionaries(
        {
            "kind": ref.KINDS,
            "max": st.sampled_from([0.7, 1.5, 2]),
            "ripple": st.one_of(
                st.none(),
                st.fixed_dictionaries(
                    {"qmax": gen.floats(5, 30), "ext": st.sampled_from([4.0, 2.0, 6]), "super": st.sampled_from([5.0, 8.0])}
                ),
            ),
            "share": st.booleans(),
        }
    ),
    min_size=1,
    max_size=3,
).map(shared)


def flags(n):
    return st.lists(st.booleans(), min_size=n, max_size=n)


@st.composite
def partspec(draw, n):
    return {
        "f": draw(st.integers(0, 2)),
        "pars": draw(st.lists(NUM, min_size=n, max_size=n)),
        "free": draw(flags(n)),
        "removable": draw(st.booleans()),
        "static": draw(st.booleans()),
    }


PEAKLIST = st.lists(partspec(3), max_size=4)
BASE = st.sampled_from(["poly-1", "poly0", "poly2", "nano", "seq"])
NAMES = st.one_of(
    st.none(),
    st.sampled_from(["/data/Ni.gr", "C:\\data\\new\\Ni.gr", "it's \"x\".gr", "a b # c.gr", "x=1.gr", "", "qmax=7", "a\nqmax=3.gr", "Zn\u00e9.gr"]),
)


@st.composite
def grids(draw, lo=2, hi=14):
    n = draw(st.integers(lo, hi))
    x0 = draw(gen.floats(0.1, 5))
    return {"x0": x0, "dx": draw(st.sampled_from([0.01, 0.1, 0.37])), "n": n}


@st.composite
def session(draw):
    g = draw(grids())
    n = g["n"]
    col = st.lists(NUM, min_size=n, max_size=n)
    pos = st.lists(gen.floats(0.01, 9), min_size=n, max_size=n)
    pdf = draw(st.booleans())
    c = {
        "pdf": pdf,
        "grid": g,
        "y": draw(col),
        "dx": draw(st.one_of(st.none(), pos)),
        "dy": draw(st.one_of(st.none(), pos)),
        "edy": draw(st.one_of(st.none(), pos)),
        "funcs": draw(FUNCS),
        "pf": draw(st.one_of(st.none(), st.lists(st.integers(0, 2), max_size=3))),
        "initial": draw(st.one_of(st.none(), PEAKLIST)),
        "base": draw(st.one_of(st.none(), BASE)),
        "based": draw(st.booleans()),  # a function only, to be estimated
        "basepars": draw(st.lists(NUM, min_size=3, max_size=3)),
        "baseflags": draw(flags(5)),
        "cres": draw(st.one_of(st.none(), gen.floats(0, 2))),
        "eval": draw(st.sampled_from([None, "AIC", "AICc"])),
        "rng": draw(
            st.one_of(st.none(), st.lists(st.one_of(st.none(), gen.floats(0, 20), st.integers(0, 9)), min_size=2, max_size=2))
        ),
        "rngtype": draw(st.sampled_from(["list", "tuple", "numpy"])),
        "numpy": draw(st.booleans()),
        "result": None,
    }
    if pdf:
        c["meta"] = {
            "filename": draw(NAMES),
            "nyquist": draw(st.sampled_from([None, True, False])),
            "qmax": draw(st.one_of(st.none(), gen.floats(0, 40))),
            "qmax_reportedbypdf": draw(st.one_of(st.none(), gen.floats(0, 40))),
            "qmax_fromdata": draw(st.one_of(st.none(), gen.floats(0, 40))),
            "scale": draw(st.sampled_from([None, True, False])),
            "supersample": draw(st.one_of(st.none(), gen.floats(1, 9))),
        }
    if draw(st.booleans()):
        h = draw(grids(lo=2, hi=10))
        m = h["n"]
        a = draw(st.integers(0, m - 1))
        c["result"] = {
            "type": draw(st.sampled_from([None, "extract", "fit", "extract_single", "fit_single"])),
            "grid": h,
            "y": draw(st.lists(NUM, min_size=m, max_size=m)),
            "e": draw(st.lists(gen.floats(0.01, 9), min_size=m, max_size=m)),
            "slice": draw(st.one_of(st.none(), st.just([a, draw(st.integers(a + 1, m))]))),
            "peaks": draw(PEAKLIST),
            "base": draw(st.one_of(st.none(), st.just("same"), BASE)),
            "basepars": draw(st.lists(NUM, min_size=3, max_size=3)),
            "eval": draw(st.sampled_from(["AIC", "AICc"])),
            "pf": draw(st.lists(st.integers(0, 2), max_size=3)),
        }
    return c


def functions(c):
    from diffpy.srmise.peaks.terminationripples import TerminationRipples

    out = []
    for f in c["funcs"]:
        m = np.float64(f["max"]) if c["numpy"] else f["max"]
        pf = out[-1].base or out[-1] if f["share"] else ref.make_pf(f["kind"], m)
        if f["ripple"]:
            q = np.float64(f["ripple"]["qmax"]) if c["numpy"] else f["ripple"]["qmax"]
            pf = TerminationRipples(pf, q, f["ripple"]["ext"], f["ripple"]["super"])
        out.append(pf)
    return [out[i % len(out)] for i in range(3)]


def basefn(kind):
    from diffpy.srmise.baselines.fromsequence import FromSequence
    from diffpy.srmise.baselines.nanospherical import NanoSpherical
    from diffpy.srmise.baselines.polynomial import Polynomial

    if kind == "nano":
        return NanoSpherical()
    if kind == "seq":
        return FromSequence([0.0, 1.5, 2.0, 7.25, 25.0], [1.0, -1.5, 2.25, 1e-5, 0.5])
    return Polynomial(int(kind[4:]))


NB = {"poly-1": 0, "poly0": 1, "poly2": 3, "nano": 2, "seq": 0}


def basepart(fn, kind, pars, fl=(True, True, True, True, False)):
    from diffpy.srmise.baselines.base import Baseline

    n = NB[kind]
    return Baseline(fn, pars[:n], free=list(fl[:n]), removable=fl[3], static_owner=fl[4])


def peaklist(specs, fns):
    from diffpy.srmise.peaks.base import Peak, Peaks

    return Peaks(
        [
            Peak(fns[s["f"]], s["pars"], free=s["free"], removable=s["removable"], static_owner=s["static"])
            for s in specs
        ]
    )


def build(c):
    from diffpy.srmise.modelcluster import ModelCluster
    from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
    from diffpy.srmise.peakextraction import PeakExtraction
    from harness import mc

    s = PDFPeakExtraction() if c["pdf"] else PeakExtraction()
    g = c["grid"]
    x = g["x0"] + g["dx"] * np.arange(g["n"])
    s.setdata(x, np.array(c["y"]), c["dx"], c["dy"])
    s.effective_dy = None if c["edy"] is None else np.array(c["edy"])
    num = np.float64 if c["numpy"] else (lambda v: v)
    fns = functions(c)
    s.pf = None if c["pf"] is None else [fns[i] for i in c["pf"]]
    s.initial_peaks = None if c["initial"] is None else peaklist(c["initial"], fns)
    bf = None if c["base"] is None else basefn(c["base"])
    if bf is not None:
        s.baseline = bf if c["based"] else basepart(bf, c["base"], c["basepars"], c["baseflags"])
    s.cres = None if c["cres"] is None else num(c["cres"])
    s.error_method = None if c["eval"] is None else mc.evaluator(c["eval"])
    if c["rng"] is not None:
        r = [None if v is None else num(v) for v in c["rng"]]
        s.rng = tuple(r) if c["rngtype"] == "tuple" else r
        if c["rngtype"] == "numpy" and None not in r:
            s.rng = [np.float64(v) for v in r]
    if c["pdf"]:
        for k, v in c["meta"].items():
            if isinstance(v, float):
                v = num(v)
            setattr(s, k, v)
    res = c["result"]
    if res is not None:
        h = res["grid"]
        r = h["x0"] + h["dx"] * np.arange(h["n"])
        if res["base"] is None:
            rb = None
        elif res["base"] == "same" and bf is not None:
            rb = basepart(bf, c["base"], res["basepars"])
        else:
            kind = "poly0" if res["base"] == "same" else res["base"]
            rb = basepart(basefn(kind), kind, res["basepars"])
        s.extracted = ModelCluster(
            peaklist(res["peaks"], fns),
            rb,
            r,
            np.array(res["y"]),
            np.array(res["e"]),
            None if res["slice"] is None else slice(*res["slice"]),
            mc.evaluator(res["eval"]),
            [fns[i] for i in res["pf"]],
        )
        s.extraction_type = res["type"]
    return s


def fn_of(f):
    """Observable description of a peak or baseline function."""
    if f is None:
        return None
    from diffpy.srmise.baselines.base import Baseline
    from diffpy.srmise.peaks.base import Peak

    r = 0.3 + 0.11 * np.arange(120)
    d = {"type": type(f).__name__, "npars": f.npars, "base": fn_of(f.base)}
    pars = [0.5, 3.0, 1.25][: f.npars]
    if f.base is not None:
        d["ripple"] = (float(f.qmax), float(f.extension), float(f.supersample))
    if f.npars == 3 and d["type"] in ("GaussianOverR", "Gaussian", "TerminationRipples"):
        part = Peak(f, pars)
    else:
        part = Baseline(f, pars)
    d["values"] = part.value(r)
    return d


def part_of(p, fns):
    if p is None:
        return None
    if not hasattr(p, "pars"):
        return {"function": fn_of(p)}
    return {
        "owner": fn_of(p.owner()),
        "shared": next((i for i, f in enumerate(fns or []) if f is p.owner()), None),
        "pars": [float(v) for v in p.pars],
        "free": [bool(v) for v in p.free],
        "removable": p.removable,
        "static": p.static_owner,
        "class": type(p).__name__,
    }


def cluster_of(m, s):
    if m is None:
        return None
    return {
        "peaks": [part_of(p, s.pf) for p in m.model],
        "peaktype": type(m.model).__name__,
        "baseline": part_of(m.baseline, None),
        "r": m.r_data,
        "y": m.y_data,
        "e": m.y_error,
        "range": list(m.slice.indices(len(m.r_data))),
        "size": m.size,
        "r_cluster": m.r_cluster,
        "y_cluster": m.y_cluster,
        "e_cluster": m.error_cluster,
        "eval": m.error_method.__name__,
        "pf": [fn_of(f) for f in m.peak_funcs],
    }


META = ("filename", "nyquist", "qmax", "qmax_reportedbypdf", "qmax_fromdata", "scale", "supersample")


def state(s, pdf):
    """Everything a session holds, observably."""
    d = {k: getattr(s, k) for k in ("x", "y", "dx", "dy", "effective_dy", "cres", "extraction_type")}
    d["rng"] = None if s.rng is None else list(s.rng)
    d["error_method"] = None if s.error_method is None else s.error_method.__name__
    d["pf"] = None if s.pf is None else [fn_of(f) for f in s.pf]
    d["initial"] = None if s.initial_peaks is None else [part_of(p, s.pf) for p in s.initial_peaks]
    d["initialtype"] = type(s.initial_peaks).__name__
    d["baseline"] = part_of(s.baseline, None)
    d["extracted"] = cluster_of(s.extracted, s)
    if pdf:
        d["meta"] = {k: getattr(s, k) for k in META}
    return d


def diff(a, b, path="", rtol=1e-5):
    """First difference between two states, or None.  Numbers agree to the 6 digits kept in files."""
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b):
            return "%s: %s / %s" % (path, a, b)
        for k in a:
            d = diff(a[k], b[k], path + "." + str(k), rtol)
            if d:
                return d
        return None
    if a is None or b is None or isinstance(a, (str, bool)):
        return None if type(a) is type(b) and a == b else "%s: %r / %r" % (path, a, b)
    if isinstance(a, (list, tuple)) and (not a or not isinstance(a[0], (int, float)) or None in a):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return "%s: %s / %s" % (path, a, b)
        for i, (p, q) in enumerate(zip(a, b)):
            d = diff(p, q, path + "[%d]" % i, rtol)
            if d:
                return d
        return None
    u, v = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if u.shape != v.shape or not np.allclose(u, v, rtol=rtol, atol=1e-300):
        return "%s: %s / %s" % (path, a, b)
    return None


