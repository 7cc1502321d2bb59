"""Analytic derivatives against numerical ones."""

import numpy as np
from hypothesis import strategies as st

from diffpy.srmise.baselines.arbitrary import Arbitrary
from diffpy.srmise.baselines.fromsequence import FromSequence
from diffpy.srmise.baselines.nanospherical import NanoSpherical
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.modelparts import ModelParts
from diffpy.srmise.peaks.terminationripples import TerminationRipples
from harness import gen, ref
from harness.core import LawSet, check

LAWS = LawSet(
    "C05",
    assumptions=[
        "points at least 1e-3 away from the kinks of a function (end of the nanoparticle, zero area)",
        "numerical derivatives by central differences; agreement to 1e-5 of the largest derivative",
    ],
)


@st.composite
def part(draw, kinds=("peak", "peak", "peak", "ripples", "poly", "nano", "arb", "seq")):
    k = draw(st.sampled_from(kinds))
    c = {"what": k}
    if k in ("peak", "ripples"):
        c["peak"] = draw(ref.peak(0.1))
        c["peak"]["pos"] = draw(gen.floats(1.0, 8.0))
        m = c["peak"]["max"]
        # internal parameters, in and out of the preferred range
        c["pars"] = [
            c["peak"]["pos"],
            draw(st.one_of(gen.floats(-1.2, 1.57), gen.floats(1.6, 4.0), gen.floats(6.0, 12.0))),
            draw(st.sampled_from([1.0, 1.0, -1.0])) * c["peak"]["area"],
        ]
        if ref.fwhm_of(c["pars"][1], m) < 0.1 * m:
            c["pars"][1] = 0.25
        c["qmax"] = draw(st.sampled_from([10.0, 17.3, 25.0]))
    elif k == "poly":
        c["pars"] = draw(st.lists(gen.floats(-3, 3), max_size=5))
    elif k == "nano":
        c["pars"] = [draw(gen.floats(0.1, 3)) * draw(st.sampled_from([1, -1])), draw(gen.floats(0.7, 12)) * draw(st.sampled_from([1, 1, -1]))]
    elif k == "arb":
        c["pars"] = draw(st.tuples(gen.floats(-3, 3), gen.floats(-1, 1)).map(list))
    else:
        c["pars"] = []
    c["free"] = draw(st.lists(st.booleans(), min_size=len(c["pars"]), max_size=len(c["pars"])))
    return c


def arb_value(p, x):
    return p[0] * np.sin(p[1] * np.asarray(x))


def arb_jac(p, x, free):
    x = np.asarray(x)
    return [np.sin(p[1] * x) if free[0] else None, p[0] * x * np.cos(p[1] * x) if free[1] else None]


def build(c, free=None):
    k = c["what"]
    if k in ("peak", "ripples"):
        pf = ref.make_pf(c["peak"]["kind"], c["peak"]["max"])
        if k == "ripples":
            pf = TerminationRipples(pf, c["qmax"])
    elif k == "poly":
        pf = Polynomial(len(c["pars"]) - 1)
    elif k == "nano":
        pf = NanoSpherical()
    elif k == "arb":
        pf = Arbitrary(2, arb_value, arb_jac)
    else:
        pf = FromSequence(list(np.linspace(0, 30, 61)), list(np.cos(np.linspace(0, 30, 61))))
    p = pf.actualize([1.0] * len(c["pars"]) if k != "peak" else [1.0, 0.0, 1.0], free=[True] * len(c["pars"]))
    p.update(np.array(c["pars"], dtype=float))
    for i, f in enumerate(c["free"] if free is None else free):
        p.setfree(i, f)
    return p


def numeric(part, r):
    """Columns of d value / d parameter by extrapolated central differences."""
    pars = np.array(part.pars, dtype=float)
    out = []
    q = part.copy()
    for i in range(len(pars)):
        q.setfree(i, True)
    for i in range(len(pars)):
        def d(h):
            a, b = pars.copy(), pars.copy()
            a[i] += h
            b[i] -= h
            q.update(a)
            u = np.array(q.value(r), dtype=float)
            q.update(b)
            return (u - np.array(q.value(r), dtype=float)) / (2 * h)

        h = 2e-4 * max(min(abs(pars[i]), 1.0), 0.05)
        out.append((4 * d(h / 2) - d(h)) / 3.0)
    return out


def usable(c, r):
    """Points away from kinks."""
    if c["what"] == "nano":
        return np.min(np.abs(r - 2 * abs(c["pars"][1]))) > 2e-3 and np.min(np.abs(r)) > 1e-3
    if c["what"] in ("peak", "ripples"):
        return abs(c["pars"][2]) > 1e-2 or abs(c["pars"][2]) > 5e-4
    return True


def agree(got, want, where, noise=0.0):
    """Derivatives agree relative to the largest of each column, up to the noise of the values."""
    scale = max(float(np.max(np.abs(want))), 1e-12)
    check(np.shape(got) == np.shape(want), "%s: %s derivatives at %s points", where, np.shape(got), np.shape(want))
    err = float(np.max(np.abs(np.asarray(got) - want)))
    check(err <= 2e-5 * scale + 1e-9 + noise, "%s: derivative %s, numerically %s", where, np.asarray(got)[:8], np.asarray(want)[:8])


@st.composite
def one(draw):
    c = draw(part())
    g = draw(ref.rgrid(0.25, 8.0, 2, 30))
    return {"part": c, "grid": g, "rng": draw(ref.slices(g["n"]))}


@LAWS.law(one, quick=900, rule="non-trivial: some parameter is free and its derivative is not all zero")
def single(c, note):
    """Derivatives of one function by its free parameters equal central differences, alone and with ripples."""
    r = ref.grid(c["grid"])
    p = build(c["part"])
    if not usable(c["part"], r):
        return False
    what = c["part"]["what"]
    note(what)
    want = numeric(p, r)
    jac = p.jacobian(r)
    check(len(jac) == len(want), "%d derivatives of %d parameters", len(jac), len(want))
    nt = False
    for i, f in enumerate(c["part"]["free"]):
        if not f:
            check(jac[i] is None, "parameter %d is fixed, but has derivative %s", i, jac[i])
            continue
        check(jac[i] is not None, "no derivative of free parameter %d of %s", i, what)
        # far from the peak, transforming leaves noise relative to its height
        noise = 1e-10 * abs(c["part"]["pars"][2]) / c["part"]["peak"]["max"] if what == "ripples" else 0.0
        agree(jac[i], want[i], "%s parameter %d" % (what, i), noise)
        nt = nt or np.max(np.abs(want[i])) > 1e-6
    a, b = c["rng"]
    if what == "ripples" and b - a < 2:
        return bool(nt)
    if b == a:
        return bool(nt)
    part_ = p.jacobian(r, slice(a, b))
    for i in range(len(jac)):
        if jac[i] is None:
            check(part_[i] is None, "fixed parameter %d has a derivative in a range", i)
            continue
        out = np.array(part_[i])
        check(np.all(out[:a] == 0) and np.all(out[b:] == 0), "derivative outside the range [%d,%d): %s", a, b, out)
        if what != "ripples":
            check(ref.close(out[a:b], np.array(jac[i])[a:b], 1e-12, 1e-12), "derivative within [%d,%d): %s, without a range %s", a, b, out[a:b], jac[i][a:b])
    x = float(r[len(r) // 2])
    if what != "ripples":
        sj = p.jacobian(x)
        for i in range(len(jac)):
            if jac[i] is None:
                check(sj[i] is None, "fixed parameter %d has a derivative at a point", i)
            else:
                v = np.asarray(jac[i])[len(r) // 2]
                check(abs(float(sj[i]) - v) <= 1e-12 * (1 + abs(v)), "derivative at the point %r is %r, in a sequence %r", x, sj[i], v)
    check(np.array_equal(p.pars, np.array(c["part"]["pars"])), "computing derivatives changed the parameters")
    return bool(nt)


@LAWS.law(one, quick=100, rule="ripples at one point: derivative equals the numerical one at that point")
def ripples_point(c, note):
    """Derivatives with ripples at a single point equal central differences there."""
    if c["part"]["what"] not in ("peak", "ripples"):
        return False
    d = dict(c["part"], what="ripples", qmax=c["part"].get("qmax", 20.0))
    r = ref.grid(c["grid"])
    p = build(d)
    x = float(r[0])
    jac = p.jacobian(x)
    want = numeric(p, x)
    nt = False
    for i, f in enumerate(d["free"]):
        if f:
            check(abs(jac[i] - want[i]) <= 2e-5 * max(abs(want[i]), float(np.max(np.abs(numeric(p, r)[i]))), 1e-3), "ripples parameter %d at %r: %r, numerically %r", i, x, jac[i], want[i])
            nt = nt or abs(want[i]) > 1e-6
        else:
            check(jac[i] is None, "fixed parameter %d has a derivative", i)
    return nt


@st.composite
def many(draw):
    parts = [draw(part(("peak", "peak", "peak", "poly", "nano", "arb"))) for _ in range(draw(st.integers(1, 4)))]
    g = draw(ref.rgrid(0.5, 6.0, 4, 25))
    err = draw(st.lists(gen.floats(0.1, 3.0), min_size=g["n"], max_size=g["n"]))
    y = draw(st.lists(gen.floats(-5, 5), min_size=g["n"], max_size=g["n"]))
    a = draw(st.integers(0, g["n"] - 2))
    return {"parts": parts, "grid": g, "err": err, "y": y, "rng": draw(st.one_of(st.none(), st.just([a, draw(st.integers(a + 1, g["n"]))])))}


@LAWS.law(many, quick=350, rule="non-trivial: >= 2 free parameters, one of them in the second part or later")
def residuals(c, note):
    """Residual = (data - model)/error; its jacobian has one row per free parameter, in order."""
    r = ref.grid(c["grid"])
    y, e = np.array(c["y"]), np.array(c["err"])
    parts = ModelParts([build(p) for p in c["parts"]])
    if not all(usable(p, r) for p in c["parts"]):
        return False
    free = parts.unpack_freepars()
    want_free = [v for p in c["parts"] for v, f in zip(p["pars"], p["free"]) if f]
    check(list(free) == want_free, "free parameters %s, expected %s", free, want_free)
    rng = None if c["rng"] is None else slice(*c["rng"])
    sel = slice(None) if rng is None else rng
    model = np.sum([build(p).value(r) for p in c["parts"]], axis=0)
    res = parts.residual(free, r, y, e, rng)
    check(ref.close(res, ((y - model) / e)[sel], 1e-9, 1e-9), "residual %s, expected %s", res, ((y - model) / e)[sel])
    if len(free) == 0:
        try:
            parts.residual_jacobian(free, r, y, e, rng)
        except ValueError:
            return False
        check(False, "a jacobian without parameters")
    jac = np.array(parts.residual_jacobian(free, r, y, e, rng))
    rows = []
    for p in c["parts"]:
        cols = numeric(build(p), r)
        rows.extend((-col / e)[sel] for col, f in zip(cols, p["free"]) if f)
    check(jac.shape == np.shape(rows), "jacobian of shape %s, expected %s", jac.shape, np.shape(rows))
    for i, row in enumerate(rows):
        agree(jac[i], row, "residual, free parameter %d" % i)
    # the same at a single point
    k = len(r) // 2
    x, one, err = float(r[k]), float(parts.residual(free, float(r[k]), y[k], e[k])), e[k]
    check(ref.close(one, (y[k] - float(np.sum([build(p).value(x) for p in c["parts"]]))) / err, 1e-9, 1e-9), "residual %r at the point %r", one, x)
    col = np.array(parts.residual_jacobian(free, x, y[k], err), dtype=float)
    check(col.shape == (len(free),), "%s derivatives of the residual at a point by %d parameters", col.shape, len(free))
    whole = np.array(parts.residual_jacobian(free, r, y, e))
    check(ref.close(col, whole[:, k], 1e-9, 1e-9 * (1 + np.max(np.abs(whole)))), "derivatives %s of the residual at the point %r, in a sequence %s", col, x, whole[:, k])
    check(list(parts.unpack_freepars()) == want_free, "computing derivatives changed the parameters")
    return len(free) >= 2 and any(any(p["free"]) for p in c["parts"][1:])


NAMES = st.sampled_from(["internal", "pwa", "mu_sigma_area", "default_output", "default_input", None])


@LAWS.law(
    lambda: st.fixed_dictionaries(
        {
            "peak": ref.peak(0.1),
            "in": NAMES,
            "out": NAMES,
            "ripples": st.booleans(),
            "bad": st.sampled_from(["PWA", "fwhm", "default", ""]),
        }
    ),
    quick=400,
    rule="non-trivial: formats differ",
)
def formats(c, note):
    """The gradient of a conversion is the numerical derivative of the conversion."""
    p = dict(c["peak"], kind="R")
    if p["width"] > 0.97 * p["max"]:
        p["width"] = 0.97 * p["max"]
    pf, pk = ref.build(p)
    if c["ripples"]:
        pf = TerminationRipples(pf, 20.0)
    pars = pf.transform_parameters(pk.pars, "internal", c["in"] or "internal")
    g = np.array(pf.transform_derivatives(pars, c["in"], c["out"]))
    check(g.shape == (3, 3), "gradient %s", g)
    for io in ((c["bad"], c["out"]), (c["in"], c["bad"]), (c["bad"], c["bad"])):
        try:
            pf.transform_derivatives(pars, *io)
        except ValueError:
            continue
        check(False, "the gradient from %r to %r was given", *io)
    for j in range(3):
        h = 1e-5 * max(min(abs(pars[j]), 1.0), 0.02)
        a, b = np.array(pars), np.array(pars)
        a[j] += h
        b[j] -= h
        num = (pf.transform_parameters(a, c["in"], c["out"]) - pf.transform_parameters(b, c["in"], c["out"])) / (2 * h)
        check(np.all(np.abs(g[:, j] - num) <= 1e-4 * (1 + np.abs(num))), "%s -> %s: gradient column %d is %s, numerically %s", c["in"], c["out"], j, g[:, j], num)
    known = {"default_output": "pwa", "default_input": "internal"}
    return known.get(c["in"], c["in"] or "internal") != known.get(c["out"], c["out"] or "pwa")
