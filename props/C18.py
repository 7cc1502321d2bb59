"""Resampling of PDFs and the quantities derived from the data."""

import numpy as np
from hypothesis import strategies as st

from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction, find_qmax, resample, stdratio
from harness import gen
from harness.core import LawSet, check

LAWS = LawSet(
    "C18",
    assumptions=[
        "data are uniformly spaced",
        "ill-conditioned ratios (a part of the data constant to 1e-4 of its spread) are not compared",
    ],
)

NUM = gen.floats(-10, 10)


@st.composite
def signal(draw, lo=2, hi=60):
    n = draw(st.integers(lo, hi))
    return {
        "x0": draw(st.one_of(gen.floats(-3, 6), st.just(0.0))),
        "dx": draw(st.sampled_from([0.01, 0.05, 0.1, 0.13, 1.0])),
        "y": draw(st.lists(NUM, min_size=n, max_size=n)),
    }


def grid(c):
    return c["x0"] + c["dx"] * np.arange(len(c["y"]))


def shannon(r, y, new):
    """Whittaker-Shannon interpolation."""
    d = (r[-1] - r[0]) / (len(r) - 1)
    return np.sinc((np.asarray(new)[:, None] - (r[0] + d * np.arange(len(r)))[None, :]) / d) @ np.asarray(y)


@st.composite
def resampling(draw):
    c = draw(signal())
    n = len(c["y"])
    c["z"] = draw(st.lists(NUM, min_size=n, max_size=n))
    c["k"] = draw(gen.floats(-3, 3))
    c["at"] = sorted(draw(st.lists(gen.floats(-0.2, 1.2), min_size=1, max_size=30)))
    c["lists"] = draw(st.booleans())
    return c


@LAWS.law(resampling, quick=900, rule="non-trivial: points between the given ones")
def interpolation(c, note):
    """Resampling is linear, passes through the data, and agrees with the interpolation formula everywhere."""
    r = grid(c)
    y, z = np.array(c["y"]), np.array(c["z"])
    new = r[0] + np.array(c["at"]) * (r[-1] - r[0])
    mk = list if c["lists"] else np.array
    keep = r.copy(), y.copy(), new.copy()
    got = resample(mk(r), mk(y), new)
    tol = 1e-9 * (1 + np.sum(np.abs(y)))
    check(np.shape(got) == np.shape(new), "%d values at %d points", np.size(got), len(new))
    check(np.all(np.abs(got - shannon(r, y, new)) <= tol), "resampled %s, expected %s", got, shannon(r, y, new))
    same = resample(mk(r), mk(y), r)
    check(np.all(np.abs(same - y) <= tol), "at the data: %s, expected %s", same, y)
    other = resample(r, z, new)
    both = resample(r, y + c["k"] * z, new)
    check(np.all(np.abs(both - got - c["k"] * other) <= tol + 1e-8 * np.sum(np.abs(z))), "not linear")
    shift = resample(r + 2.5, y, new + 2.5)
    check(np.all(np.abs(shift - got) <= 1e-7 * (1 + np.sum(np.abs(y)))), "depends on the origin")
    check(all(np.array_equal(a, b) for a, b in zip(keep, (r, y, new))), "arguments changed")
    return True


@st.composite
def extraction(draw):
    c = draw(signal(6, 60))
    n = len(c["y"])
    pos = st.lists(gen.floats(0.1, 5), min_size=n, max_size=n)
    c["x0"] = draw(gen.floats(0.05, 4))
    c["dx_"] = draw(st.one_of(st.none(), pos))
    c["dy"] = draw(pos)
    c["edy"] = draw(st.one_of(st.none(), pos, gen.floats(0.1, 9)))
    c["qmax"] = draw(st.one_of(st.just(0.0), gen.floats(3, 40)))
    c["nyquist"] = draw(st.sampled_from([None, True, False]))
    c["scale"] = draw(st.sampled_from([None, True, False]))
    c["fine"] = draw(st.sampled_from([0.1, 0.25, 0.5, 0.9, 1.0, 1.5, 2.3]))
    c["rng"] = draw(
        st.one_of(
            st.none(),
            st.tuples(st.one_of(st.none(), gen.floats(-0.3, 0.4)), st.one_of(st.none(), gen.floats(0.6, 1.4))).map(list),
        )
    )
    return c


@LAWS.law(extraction, quick=700, rule="non-trivial: a range or scaled uncertainties")
def resampled(c, note):
    """Data are resampled over their range at the interval asked for, with interpolated (and where asked scaled) uncertainties."""
    r, y = grid(c), np.array(c["y"])
    p = PDFPeakExtraction()
    p.setdata(r, y, c["dx_"], c["dy"])
    kw = {"qmax": c["qmax"]}
    for k in ("nyquist", "scale"):
        if c[k] is not None:
            kw[k] = c[k]
    lo, hi = r[0], r[-1]
    if c["rng"] is not None:
        kw["rng"] = [None if v is None else r[0] + v * (r[-1] - r[0]) for v in c["rng"]]
        lo = lo if kw["rng"][0] is None else max(lo, kw["rng"][0])
        hi = hi if kw["rng"][1] is None else min(hi, kw["rng"][1])
    edy = np.array(c["dy"])
    if c["edy"] is not None:
        kw["effective_dy"] = np.array(c["edy"]) if isinstance(c["edy"], list) else c["edy"]
        edy = np.ones(len(r)) * np.array(c["edy"])
    p.setvars(quiet=True, **kw)
    s = p.getrangeslice()
    check(np.array_equal(r[s], r[(r >= lo) & (r <= hi)]), "points %s are not those in [%r, %r]", r[s], lo, hi)
    nyq = c["nyquist"] if c["nyquist"] is not None else c["qmax"] > 0
    base = np.pi / c["qmax"] if c["qmax"] > 0 else c["dx"]
    dr = base * c["fine"]
    want = 1.0
    if c["qmax"] > 0 and nyq and c["scale"]:
        want = max(1.0, np.sqrt(base / dr))
        if want > 1:
            note("scaled")
    check(abs(p.errorscale(dr) - want) <= 1e-12 * want, "scale of uncertainties at %r: %r, expected %r", dr, p.errorscale(dr), want)
    if hi - lo < 1e-6 or np.ceil((hi - lo) / dr) > 4000:
        return False
    x1, y1, dx1, dy1 = p.resampledata(dr)
    m = len(x1)
    check(abs(x1[0] - lo) <= 1e-12 * (1 + abs(lo)) and x1[-1] <= hi + 1e-9 and hi - x1[-1] <= dr * (1 + 1e-9), "range %r..%r of [%r, %r]", x1[0], x1[-1], lo, hi)
    check(np.all(np.abs(np.diff(x1) - dr) <= 1e-9 * (1 + abs(hi))), "spacing %s, expected %r", np.diff(x1), dr)
    check(len(y1) == len(dy1) == m, "lengths")
    tol = 1e-8 * (1 + np.sum(np.abs(y)))
    check(np.all(np.abs(y1 - shannon(r, y, x1)) <= tol), "values %s, expected %s", y1, shannon(r, y, x1))
    check(np.allclose(dy1, want * np.interp(x1, r, edy), rtol=1e-9), "uncertainties %s, expected %s", dy1, want * np.interp(x1, r, edy))
    dx = np.zeros(len(r)) if c["dx_"] is None else np.array(c["dx_"])
    check(dx1 is not None and np.allclose(dx1, np.interp(x1, r, dx), rtol=1e-9), "uncertainties in x %s", dx1)
    check(np.array_equal(p.x, r) and np.array_equal(p.y, y) and np.allclose(p.effective_dy, edy), "the data changed")
    return c["rng"] is not None or want > 1


@LAWS.law(lambda: st.lists(gen.floats(-20, 20), min_size=4, max_size=60), quick=800, rule="non-trivial: >= 6 numbers, well-conditioned")
def spread(c, note):
    """The ratio of standard deviations left and right is the stated one for every split."""
    d = np.array(c)
    got = stdratio(d)
    n = len(d) // 2 - 1
    check(len(got) == n, "%d ratios of %d numbers", len(got), len(d))
    compared = 0
    for i in range(n):
        left, right = np.std(d[: i + 2]), np.std(d[i + 2 : 2 * i + 4])
        if right > 1e-4 * (1 + np.max(np.abs(d))):
            compared += 1
            check(abs(got[i] - left / right) <= 1e-6 * (1 + left / right), "ratio %d is %r, expected %r", i, got[i], left / right)
    return compared >= 2


@st.composite
def pdf(draw):
    c = draw(signal(12, 120))
    c["x0"] = draw(gen.floats(0.01, 4))
    c["stretch"] = draw(st.sampled_from([0.5, 2.0, 3.0]))
    c["factor"] = draw(st.sampled_from([-2.0, 0.25, 8.0]))
    return c


@LAWS.law(pdf, quick=500, rule="non-trivial: well-conditioned, compared with the definition")
def cutoff(c, note):
    """The cutoff found lies where the spread of the sine transform drops most sharply; it scales inversely with r, not with the values."""
    r, y = grid(c), np.array(c["y"])
    n = len(y)
    try:
        q, dq = find_qmax(r, y)
    except Exception:
        check(np.ptp(y) < 1e-9, "no cutoff found for %s", y)
        return False
    check(abs(dq - 2 * np.pi / (r[-1] - r[0])) <= 1e-9 * dq, "uncertainty %r", dq)
    p = PDFPeakExtraction()
    p.setdata(list(r), list(y))
    check(p.qmax_fromdata == q or (q != q and p.qmax_fromdata != p.qmax_fromdata), "of the data: %r, expected %r", p.qmax_fromdata, q)
    # data from which none can be found
    p.setdata([1.0], [2.0])
    check(p.qmax_fromdata is None, "one point has cutoff %r", p.qmax_fromdata)
    new = np.linspace(r[0], r[-1], 2 * n)
    f = np.imag(np.fft.fft(shannon(r, y, new)))[:n]
    k = len(f) // 2 - 1
    left = np.array([np.std(f[: i + 2]) for i in range(k)])
    right = np.array([np.std(f[i + 2 : 2 * i + 4]) for i in range(k)])
    if np.min(right) <= 1e-4 * np.max(np.abs(f)) or k < 3:
        return False
    d = left / right
    dd = -np.diff(d, 2)
    j = q / (2 * np.pi / ((2 * n - 1) * (new[-1] - new[0]) / (2 * n - 1)))
    check(abs(j - round(j)) < 1e-6, "cutoff %r is not on the transform's grid", q)
    j = int(round(j)) - 2
    check(0 <= j < len(dd) and dd[j] >= np.max(dd) - 1e-5 * np.max(np.abs(d)), "cutoff %r at %d, expected %d", q, j, int(np.argmax(dd)))
    top = np.sort(dd)[::-1]
    if len(dd) > 1 and top[0] - top[1] > 1e-3 * np.max(np.abs(d)):
        s = c["stretch"]
        check(abs(find_qmax(r * s, y)[0] - q / s) <= 1e-6 * q, "does not scale with r")
        check(abs(find_qmax(r, y * c["factor"])[0] - q) <= 1e-6 * q, "depends on the height of the data")
        note("scaled")
    return True


@LAWS.law(
    lambda: st.fixed_dictionaries({"n": st.integers(1, 30), "m": st.integers(1, 30), "which": st.sampled_from(["y", "dx", "dy", "qmax"]), "pdf": st.booleans()}),
    quick=200,
    rule="non-trivial: lengths differ",
)
def lengths(c, note):
    """Data of different lengths are refused."""
    from diffpy.srmise.peakextraction import PeakExtraction

    n, m = c["n"], c["m"]
    p = PDFPeakExtraction() if c["pdf"] else PeakExtraction()
    x = 0.1 * (1 + np.arange(n))
    args = {"x": x, "y": np.sin(x), "dx": None, "dy": None}
    if c["which"] == "qmax":
        op = lambda: find_qmax(x, np.sin(0.1 * np.arange(m)))  # noqa: E731
        if n == m:
            return False
    else:
        args[c["which"]] = np.ones(m)
        op = lambda: p.setdata(**args)  # noqa: E731
    try:
        op()
        check(n == m, "%d x and %d %s accepted", n, m, c["which"])
        for k, v in args.items():
            check(np.array_equal(getattr(p, k), np.zeros(n) if v is None else v), "data %s", k)
    except ValueError:
        check(n != m, "data of %d points refused", n)
    return n != m
