"""Conversions between parameter formats."""

import numpy as np
from hypothesis import strategies as st

from diffpy.srmise.baselines.arbitrary import Arbitrary
from diffpy.srmise.baselines.fromsequence import FromSequence
from diffpy.srmise.baselines.nanospherical import NanoSpherical
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.modelparts import ModelParts
from diffpy.srmise.peaks.terminationripples import TerminationRipples
from harness import gen, ref
from harness.core import LawSet, check

LAWS = LawSet("C04", assumptions=["widths of at least 2% of the maximum width"])

FMTS = ["internal", "pwa", "mu_sigma_area"]
NAMES = FMTS + ["default_input", "default_output", None]


def resolve(name, role):
    if name == "default_input" or (name is None and role == "in"):
        return "internal"
    if name == "default_output" or (name is None and role == "out"):
        return "pwa"
    return name


def expect(c, fmt):
    """The peak's parameters in a format, from its position, width and area."""
    w = c["width"]
    if fmt == "internal":
        w = float(np.arcsin(np.clip(2 * (w / c["max"]) ** 2 - 1, -1, 1)))
    elif fmt == "mu_sigma_area":
        w = w / ref.S2F
    return np.array([c["pos"], w, c["area"]])


@st.composite
def conv(draw):
    c = draw(ref.peak())
    c["ripples"] = draw(st.booleans())
    c["route"] = draw(st.lists(st.sampled_from(FMTS), min_size=1, max_size=5))
    c["in"] = draw(st.sampled_from(NAMES))
    c["out"] = draw(st.sampled_from(NAMES))
    c["as"] = draw(st.sampled_from(["array", "list"]))
    c["bad"] = draw(st.sampled_from(["", "PWA", "fwhm", "default", "internal "]))
    return c


def same(got, want, c, msg):
    tol = np.array([1e-9 * abs(c["pos"]), 1e-7 * max(abs(want[1]), c["max"]), 1e-9 * abs(c["area"])])
    # arcsin is steep at its ends: compare the width parameter by the width it means
    check(np.all(np.abs(np.asarray(got) - want) <= tol), "%s: %s, expected %s", msg, got, want)


@LAWS.law(conv, quick=1500, rule="non-trivial: the conversion changes the format")
def routes(c, note):
    """Any chain of conversions keeps the peak; formats relate by the documented formulas."""
    pf = ref.make_pf(c["kind"], c["max"])
    if c["ripples"]:
        pf = TerminationRipples(pf, 20.0)
    mk = np.array if c["as"] == "array" else list
    i, o = resolve(c["in"], "in"), resolve(c["out"], "out")
    src = mk([float(v) for v in expect(c, i)])
    keep = list(src)
    got = pf.transform_parameters(src, in_format=c["in"], out_format=c["out"])
    check(list(src) == keep, "the conversion changed its input to %s", src)
    back = pf.transform_parameters(got, in_format=o, out_format="pwa")
    want = expect(c, "pwa")
    same(back, want, c, "%s -> %s -> pwa" % (c["in"], c["out"]))
    if o != "internal":
        same(got, expect(c, o), c, "%s -> %s" % (c["in"], c["out"]))
    else:
        check(-np.pi / 2 <= got[1] <= np.pi / 2, "internal width parameter %r is not normalised", got[1])
        w = ref.fwhm_of(got[1], c["max"])
        check(abs(w - c["width"]) <= 1e-8 * c["max"], "%s -> internal gives width %r, not %r", c["in"], w, c["width"])
    cur, fmt = expect(c, "pwa"), "pwa"
    for f in c["route"]:
        cur = pf.transform_parameters(cur, fmt, f)
        fmt = f
    same(pf.transform_parameters(cur, fmt, "pwa"), want, c, "route %s" % c["route"])
    for kw in ({"in_format": c["bad"], "out_format": "pwa"}, {"in_format": "pwa", "out_format": c["bad"]}):
        try:
            pf.transform_parameters(list(want), **kw)
        except ValueError:
            pass
        else:
            check(False, "format %r accepted", c["bad"])
    pk = pf.actualize(list(expect(c, i)), i)
    same(pf.transform_parameters(pk.pars, "internal", "pwa"), want, c, "actualize in %s" % i)
    return i != o


@LAWS.law(
    lambda: st.fixed_dictionaries(
        {
            "kind": ref.KINDS,
            "max": st.sampled_from([0.5, 0.7, 2.0]),
            "pars": st.tuples(gen.floats(0.5, 20), gen.floats(-40, 40), gen.floats(-30, 30)).map(list),
        }
    ),
    quick=800,
    rule="non-trivial: the parameters are not in the preferred range already",
)
def normalise(c, note):
    """Restoring the preferred range keeps the curve and is idempotent."""
    pf = ref.make_pf(c["kind"], c["max"])
    if ref.fwhm_of(c["pars"][1], c["max"]) < 0.02 * c["max"]:
        return False
    r = c["pars"][0] + c["max"] * np.linspace(-1, 1, 9)
    r = np.where(np.abs(r) < 0.01, 0.01, r)
    raw = pf.actualize([1.0, 0.0, 1.0])
    raw.update(np.array(c["pars"]))
    n = pf.transform_parameters(c["pars"], "internal", "internal")
    check(-np.pi / 2 - 1e-9 <= n[1] <= np.pi / 2 + 1e-9 and n[2] >= 0, "%s is not in the preferred range", n)
    check(n[0] == c["pars"][0] and n[2] == abs(c["pars"][2]), "position or area changed: %s from %s", n, c["pars"])
    nice = pf.actualize([1.0, 0.0, 1.0])
    nice.update(np.array(n))
    a, b = raw.value(r), nice.value(r)
    check(ref.close(b, a, 1e-8, 1e-200), "the curve changed from %s to %s", a, b)
    n2 = pf.transform_parameters(n, "internal", "internal")
    check(ref.close(n2, n, 1e-12), "normalising twice: %s, then %s", n, n2)
    for f in ("pwa", "mu_sigma_area"):
        u, v = pf.transform_parameters(c["pars"], "internal", f), pf.transform_parameters(n, "internal", f)
        check(ref.close(u, v, 1e-8), "equivalent parameters give %s and %s in %s", u, v, f)
    pk = pf.actualize(c["pars"])
    check(ref.close(pk.value(r), a, 1e-8, 1e-200), "a peak made of %s has another curve", c["pars"])
    return list(n) != c["pars"]


def base(c):
    k = c["base"]
    if k == "poly":
        return Polynomial(len(c["pars"]) - 1), c["pars"]
    if k == "nano":
        return NanoSpherical(), (c["pars"] + [1.0, 5.0])[:2]
    if k == "arb":
        return Arbitrary(len(c["pars"]), lambda p, x: np.polyval(p, x) if len(p) else 0.0 * x), c["pars"]
    return FromSequence([0.0, 1.0, 2.0, 3.0, 4.0], [1.0, 0.0, 3.0, 2.0, 2.0]), []


@LAWS.law(
    lambda: st.fixed_dictionaries(
        {"base": st.sampled_from(["poly", "nano", "arb", "seq"]), "pars": st.lists(gen.floats(-9, 9), max_size=4)}
    ),
    quick=300,
    rule="non-trivial: the baseline has parameters",
)
def baselines(c, note):
    """Baselines have one format; only the spherical baseline has equivalent negative parameters."""
    bf, pars = base(c)
    got = bf.transform_parameters(list(pars), "internal", "default_output")
    want = [abs(v) for v in pars] if c["base"] == "nano" else pars
    check(list(got) == list(want), "%s converted to %s", pars, got)
    given = np.array(pars, dtype=float)
    got = bf.transform_parameters(given, "default_input", None)
    check(list(got) == list(want), "%s converted to %s", pars, got)
    check(list(given) == list(pars), "converting changed the parameters given from %s to %s", pars, given)
    if len(pars):
        got[0] += 1.0
        check(list(given) == list(pars), "the converted parameters share storage with those given")
    for bad in ("pwa", "mu_sigma_area"):
        try:
            bf.transform_parameters(list(pars), "internal", bad)
        except ValueError:
            pass
        else:
            check(False, "a baseline accepts the format %r", bad)
    note(c["base"])
    return len(pars) > 0


@st.composite
def mixed(draw):
    n = draw(st.integers(0, 4))
    return {"peaks": [draw(ref.peak()) for _ in range(n)], "poly": draw(st.lists(gen.floats(-3, 3), max_size=3)), "fmt": draw(st.sampled_from(["pwa", "mu_sigma_area"]))}


@LAWS.law(mixed, quick=300, rule="non-trivial: a baseline with parameters and >= 1 peak")
def collections(c, note):
    """A collection converts each part that knows the format and leaves the others as they are."""
    parts = ModelParts([ref.build(p)[1] for p in c["peaks"]])
    parts.append(Polynomial(len(c["poly"]) - 1).actualize(c["poly"]))
    before = [np.array(p.pars) for p in parts]
    parts.transform("internal", c["fmt"])
    for p, pk in zip(c["peaks"], parts):
        same(pk.pars, expect(p, c["fmt"]), p, "collection to %s" % c["fmt"])
    check(list(parts[-1].pars) == list(c["poly"]), "the baseline's parameters became %s", parts[-1].pars)
    parts.transform(c["fmt"], "internal")
    for b, p in zip(before, parts):
        check(ref.close(p.pars, b, 1e-6, 1e-7), "there and back: %s, was %s", p.pars, b)
    return bool(c["poly"]) and bool(c["peaks"])
