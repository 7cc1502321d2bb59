"""Baselines: values and construction."""

import logging
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from diffpy.srmise.baselines.arbitrary import Arbitrary
from diffpy.srmise.baselines.fromsequence import FromSequence
from diffpy.srmise.baselines.nanospherical import NanoSpherical
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.srmiseerrors import SrMiseDataFormatError
from harness import boot, gen, ref
from harness.core import LawSet, check

LAWS = LawSet("C08", assumptions=["tabulated baselines have at least 4 points of strictly rising x (cubic interpolation)"])


def horner(p, r):
    v = np.zeros(np.shape(r))
    for a in p:
        v = v * r + a
    return v


def pointwise(part, r, want, what, rng=None):
    got = part.value(r)
    check(ref.close(got, want, 1e-9, 1e-9), "%s: %s, expected %s", what, got, want)
    for i in (0, len(r) // 2, len(r) - 1):
        v = part.value(float(r[i]))
        check(np.ndim(v) == 0 and abs(float(v) - want[i]) <= 1e-9 * np.max(np.abs(want)) + 1e-9, "%s at the point %r: %r, expected %r", what, r[i], v, want[i])
    if rng and rng[1] > rng[0]:
        a, b = rng
        exp = np.zeros(len(r))
        exp[a:b] = want[a:b]
        check(ref.close(part.value(r, slice(a, b)), exp, 1e-9, 1e-9), "%s in the range [%d,%d)", what, a, b)


@st.composite
def base(draw):
    g = draw(ref.rgrid(0.0, 12.0, 1, 40))
    g["r0"] = draw(st.one_of(st.just(g["r0"]), gen.floats(-5, 0)))
    return {
        "grid": g,
        "rng": draw(ref.slices(g["n"])),
        "poly": draw(st.lists(gen.floats(-3, 3), max_size=5)),
        "scale": draw(gen.floats(-3, 3)),
        "radius": draw(gen.floats(0.3, 15)) * draw(st.sampled_from([1, 1, -1])),
        "edge": draw(st.booleans()),
        "key": draw(st.integers(0, 4)),
    }


@LAWS.law(base, quick=900, rule="non-trivial: the nanoparticle ends inside the data, or the polynomial has degree >= 1")
def values(c, note):
    """Polynomials (highest power first) and the spherical nanoparticle, which is 0 outside (0, 2R)."""
    r = ref.grid(c["grid"])
    r0 = r.copy()
    n = len(c["poly"])
    p = Polynomial(n - 1).actualize(c["poly"])
    pointwise(p, r, horner(c["poly"], r), "polynomial", c["rng"])
    for k in range(n):
        check(p["a_%d" % k] == c["poly"][n - 1 - k], "coefficient a_%d is %r of %s", k, p["a_%d" % k], c["poly"])
    R = abs(c["radius"])
    if c["edge"]:
        r = np.sort(np.append(r, [2 * R, 0.0]))
        rng = None
    else:
        rng = c["rng"]
    b = NanoSpherical().actualize([1.0, 1.0])
    b.update(np.array([c["scale"], c["radius"]]))
    want = ref.nano(c["scale"], R, r)
    pointwise(b, r, want, "nanoparticle", rng)
    got = b.value(r)
    check(np.all(got <= 1e-12), "a nanoparticle baseline above zero: %s", got)
    check(np.all(got[(r <= 0) | (r >= 2 * R)] == 0), "not zero outside (0, %r): %s", 2 * R, got)
    q = NanoSpherical().actualize([c["scale"], c["radius"]])
    check(q["scale"] == abs(c["scale"]) and q["radius"] == R, "parameters %s of (%r, %r)", q.pars, c["scale"], c["radius"])
    pointwise(q, r, want, "nanoparticle", rng)
    arb = Arbitrary(n, lambda v, x: horner(v, x) + np.cos(x)).actualize(c["poly"])
    pointwise(arb, r, horner(c["poly"], r) + np.cos(r), "user's function", rng)
    check(np.array_equal(ref.grid(c["grid"]), r0), "points changed")
    return n >= 2 or r[0] < 2 * R < r[-1]


@st.composite
def table(draw):
    n = draw(st.integers(4, 30))
    x = [draw(gen.floats(-2, 4))]
    for g in draw(st.lists(st.one_of(st.integers(1, 16).map(lambda v: v / 8.0), gen.floats(0.01, 2.0)), min_size=n - 1, max_size=n - 1)):
        x.append(x[-1] + g)
    y = draw(st.lists(gen.floats(-9, 9), min_size=n, max_size=n))
    return {
        "x": x,
        "y": y,
        "cubic": draw(st.tuples(*[gen.floats(-1, 1)] * 4).map(list)),
        "at": draw(st.lists(gen.floats(0, 1), min_size=1, max_size=6)),
        "how": draw(st.sampled_from(["args", "kwds", "file", "filekw"])),
        "header": draw(st.sampled_from(["", "# comment\n", "# x y\n# more\n", "#\n"])),
        "sep": draw(st.sampled_from([" ", "\t", "   "])),
        "tail": draw(st.sampled_from(["", "\n", "\n\n"])),
        "extra": draw(st.booleans()),
        "fmt": draw(st.sampled_from(["%r", "%.17g", "%.16e"])),
    }


def make(c, x, y, tmp):
    if c["how"] == "args":
        return FromSequence(x, y)
    if c["how"] == "kwds":
        return FromSequence(x=np.array(x), y=np.array(y))
    path = os.path.join(tmp, "base.dat")
    rows = [c["sep"].join([c["fmt"] % a, c["fmt"] % b] + (["0.5"] if c["extra"] else [])) for a, b in zip(x, y)]
    with open(path, "w") as f:
        f.write(c["header"] + "\n".join(rows) + c["tail"])
    return FromSequence(path) if c["how"] == "file" else FromSequence(file=path)


@LAWS.law(table, quick=500, rule="non-trivial: read from a file, or evaluated between the points")
def tabulated(c, note):
    """A tabulated baseline, given directly or in a file, passes through its points and reproduces a cubic."""
    x = np.array(c["x"])
    with tempfile.TemporaryDirectory() as tmp:
        f = make(c, c["x"], c["y"], tmp)
        part = f.actualize([])
        check(len(part) == 0 and part.npars() == 0, "a tabulated baseline has parameters")
        got = part.value(x)
        check(ref.close(got, c["y"], 1e-7, 1e-7), "at its points (%s): %s, expected %s", c["how"], got, c["y"])
        m = len(x) // 2
        check(abs(float(part.value(float(x[m]))) - c["y"][m]) <= 1e-6, "at the point %r", x[m])
        check(part.jacobian(x) == [], "derivatives without parameters")
        g = make(c, c["x"], np.polyval(c["cubic"], x).tolist(), tmp)
        at = np.sort(x[0] + np.array(c["at"]) * (x[-1] - x[0]))
        want = np.polyval(c["cubic"], at)
        lim = 1e-6 * (1 + float(np.max(np.abs(np.polyval(np.abs(c["cubic"]), np.abs(x))))))
        gv = g.actualize([]).value(at)
        check(np.all(np.abs(gv - want) <= lim), "cubic between the points: %s, expected %s", gv, want)
        check(ref.close(np.array([float(v) for v in f.metadict["x"][0]]), x, 1e-12), "stored x")
    note(c["how"])
    return True


def raw(n, where):
    """Evaluates a baseline with a wrong number of parameters or flags; the first which is accepted ends it."""
    x = np.arange(1.0, n + 4)
    f = [Polynomial(n - 3), NanoSpherical(), FromSequence(x, x * x), Arbitrary(n, lambda p, r: r, lambda p, r, free: [r for v in p])][where % 4]
    m = f.npars
    acts = [
        lambda: f._valueraw([1.0] * (m + 1), x),
        lambda: f._valueraw([1.0] * (m + 1), 1.5),
        lambda: f._jacobianraw([1.0] * (m + 1), x, [True] * m),
        lambda: f._jacobianraw([1.0] * m, x, [True] * (m + 1)),
    ]
    for act in acts:
        try:
            act()
        except ValueError:
            continue
        return
    raise ValueError


@LAWS.law(
    lambda: st.fixed_dictionaries(
        {
            "n": st.integers(4, 9),
            "lo": st.integers(-6, 30),
            "len": st.integers(1, 30),
            "how": st.sampled_from(["grid", "point", "range"]),
            "kwds": st.booleans(),
        }
    ),
    quick=150,
    rule="non-trivial: points at or outside the ends of the table",
)
def extrapolated(c, note):
    """Exactly the evaluations which go beyond the table are warned of, and the values within are still those."""
    n = c["n"]
    x = np.arange(n) / 2.0 + 1
    y = np.sin(np.arange(n))
    part = (FromSequence(x=x, y=y) if c["kwds"] else FromSequence(x.tolist(), y.tolist())).actualize([])
    r = (c["lo"] + np.arange(c["len"])) / 4.0
    if c["how"] == "point":
        r = r[:1]
    elif c["how"] == "range":
        r = np.concatenate([[-5.0], r, [50.0]])
    with boot.listening() as seen:
        if c["how"] == "point":
            got = np.array([float(part.value(float(r[0])))])
        elif c["how"] == "range":
            got = part.value(r, slice(1, len(r) - 1))[1:-1]
            r = r[1:-1]
        else:
            got = part.value(r)
    seen = [m for m in seen if m[0] >= logging.WARNING]
    out = r[0] < x[0] or r[-1] > x[-1]
    check(bool(seen) == out, "table from %r to %r evaluated from %r to %r: messages %s", x[0], x[-1], r[0], r[-1], seen)
    for a, v in zip(r, got):
        k = np.flatnonzero(x == a)
        if len(k):
            check(abs(v - y[k[0]]) <= 1e-9, "value %r at the point %r, expected %r", v, a, y[k[0]])
    if out:
        note("warned")
    return r[0] <= x[0] or r[-1] >= x[-1]


@LAWS.law(
    lambda: st.fixed_dictionaries(
        {
            "bad": st.sampled_from(["ragged", "word", "empty", "lengths", "none", "three", "missing", "degree", "npars", "callable", "pars", "free", "signature", "mixed", "raw"]),
            "n": st.integers(4, 8),
            "where": st.integers(0, 7),
        }
    ),
    quick=200,
    rule="every case: an argument or file that does not describe a baseline",
)
def refused(c, note):
    """Arguments and files that do not describe a baseline are refused, without a partial result."""
    n = c["n"]
    x = [float(i) for i in range(n)]
    y = [v * v for v in x]
    bad = c["bad"]
    note(bad)
    want = ValueError
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "b.dat")
        rows = ["%r %r" % t for t in zip(x, y)]
        if bad == "ragged":
            rows[c["where"] % n] = "1.5"
            want = SrMiseDataFormatError
        elif bad == "word":
            rows[c["where"] % n] = "1.5 two"
            want = SrMiseDataFormatError
        elif bad == "empty":
            rows = []
            want = SrMiseDataFormatError
        with open(path, "w") as f:
            f.write("\n".join(rows))
        acts = {
            "ragged": lambda: FromSequence(path),
            "word": lambda: FromSequence(path),
            "empty": lambda: FromSequence(path),
            "lengths": lambda: FromSequence(x, y[:-1]),
            "none": lambda: FromSequence(),
            "three": lambda: FromSequence(x, y, x),
            "missing": lambda: FromSequence(os.path.join(tmp, "nothing.dat")),
            "degree": lambda: Polynomial([1.5, "a", "2.0", None][c["where"] % 4]),
            "npars": lambda: Arbitrary([-1, "x", 1.5][c["where"] % 3], lambda p, r: r),
            "callable": lambda: Arbitrary(1, *[(3,), (len, 3), (len, len, 3)][c["where"] % 3]),
            "pars": lambda: Polynomial(2).actualize([1.0] * [0, 1, 2, 4][c["where"] % 4]),
            "free": lambda: Polynomial(2).actualize([1.0] * 3, free=[True] * [0, 1, 2, 4][c["where"] % 4]),
            "signature": lambda: [FromSequence(x=x), FromSequence(y=y)] if c["where"] % 2 else FromSequence(x, y=y),
            "mixed": lambda: FromSequence(
                *[[], [], [path], [x, y], [path], [], [x], [x, y]][c["where"]],
                **[{"file": path, "x": x}, {"file": path, "y": y}, {"file": path}, {"file": path}, {"x": x, "y": y}, {"file": path, "x": x, "y": y}, {"file": path}, {"x": x, "y": y}][c["where"]],
            ),
            "raw": lambda: raw(n, c["where"]),
        }
        want = {"none": TypeError, "three": TypeError, "missing": OSError, "signature": TypeError, "mixed": TypeError}.get(bad, want)
        try:
            acts[bad]()
        except want:
            return True
    check(False, "%s accepted", bad)
