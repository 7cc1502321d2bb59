"""Plots show the data, models and comparisons they are asked for."""

import contextlib
import io
import os
import sys

import numpy as np
from hypothesis import strategies as st

from diffpy.srmise import srmiselog
from diffpy.srmise.dataclusters import DataClusters
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.multimodelselection import MultimodelSelection
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction, find_qmax, resample
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peakstability import PeakStability
from harness import gen, mc, ref, session
from harness.core import LawSet, check
from props import C23

LAWS = LawSet("C27", assumptions=["what is shown is read from the matplotlib artists; layout, colours and fonts are not checked"])

import logging  # noqa: E402

import matplotlib  # noqa: E402

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
from diffpy.srmise.applications import plot as app  # noqa: E402

logging.getLogger("matplotlib").setLevel(logging.CRITICAL)


@st.composite
def models(draw):
    peak = st.fixed_dictionaries({"pos": gen.floats(1.3, 4.5), "width": gen.floats(0.1, 0.6), "area": gen.floats(0.5, 9)})
    return {
        "kind": draw(ref.KINDS),
        "grid": {"r0": 1.0, "dr": 0.05, "n": draw(st.integers(20, 80))},
        "base": draw(st.sampled_from(["none", "poly0", "poly1"])),
        "bp": draw(st.lists(gen.floats(-0.5, 0.5), min_size=2, max_size=2)),
        "bfree": True,
        "peaks": draw(st.lists(peak, max_size=4)),
        "state": draw(st.sampled_from(["extracted", "extracted", "initial", "bare"])),
        "crop": draw(st.booleans()),
        "e": draw(gen.floats(0.05, 2)),
        "wave": draw(gen.floats(2, 9)),
        "rise": draw(st.sampled_from([0.0, 1.0, -0.5])),
        "part": draw(st.booleans()),
    }


def setup(c):
    pf = ref.make_pf(c["kind"], 0.7)
    r = ref.grid(c["grid"])
    y = 2 + np.sin(c["wave"] * r) * r
    p = PDFPeakExtraction()
    p.setdata(r, y)
    kw = {"rng": [float(r[3]), float(r[-4])]} if c["crop"] else {}
    b = mc.baseline(c)
    e = c["e"] * (1 + c["rise"] * np.linspace(0, 1, len(r)) ** 3)
    p.setvars(quiet=True, pf=[pf], qmax=0.0, effective_dy=e, cres=0.1, baseline=b, **kw)
    p.defaultvars()
    peaks = mc.peaks([dict(q, free=[True] * 3, removable=True) for q in c["peaks"]], pf)
    peaks.sort(key="position")
    s = slice(3, len(r) - 3) if c["crop"] else slice(0, len(r))
    if c["state"] == "extracted":
        # of all data, or of those in range
        data = (r, y, e, s) if c["part"] else (r[s], y[s], e[s], None)
        p.extracted = ModelCluster(peaks, b, *data, p.error_method, p.pf)
        p.extraction_type = "extract"
    elif c["state"] == "initial":
        p.initial_peaks = peaks
    else:
        peaks = peaks[:0]
    return p, peaks, b, r, y, s


@st.composite
def figures(draw):
    c = draw(models())
    maybe = lambda s: draw(st.one_of(st.none(), s))  # noqa: E731
    c["ip"] = maybe(st.lists(gen.floats(1, 5), max_size=4))
    c["stability"] = maybe(st.lists(gen.floats(0.1, 3), min_size=1, max_size=4, unique=True))
    c["scale"] = maybe(st.sampled_from([2.0, 0.5, 10.0]))
    c["x"] = maybe(st.tuples(gen.floats(0.2, 1.4), gen.floats(1.8, 5.5)).map(list))
    c["show"] = {k: draw(st.sampled_from([None, True, False])) for k in ("fit", "individual", "residual", "annotation")}
    c["fill"] = draw(st.sampled_from([None, True, False]))
    c["mask"] = maybe(st.sampled_from([0.5, 1.5]))
    c["labels"] = maybe(st.tuples(st.sampled_from(["Ni", "a b"]), st.sampled_from(["x", "r"]), st.sampled_from(["y", "G"])).map(list))
    c["cmp"] = draw(st.sampled_from([None, None, 0, 20.0]))
    c["limits"] = maybe(st.tuples(gen.floats(-3, 0), gen.floats(3, 20)).map(list))
    c["dglimits"] = draw(st.tuples(*[st.one_of(st.none(), gen.floats(0.2, 2.5))] * 2).map(list))
    c["post"] = draw(st.booleans())
    c["draw"] = draw(st.booleans())
    return c


def xy(line):
    return np.array(line.get_xdata(), dtype=float), np.array(line.get_ydata(), dtype=float)


@LAWS.law(figures, quick=80, thorough=700, rule="non-trivial: >= 1 peak shown")
def makeplot(c, note):
    """The figure shows the data, the fitted model, each peak, the residual and the positions compared, with the scale, range and options asked for, and changes nothing."""
    p, peaks, b, r, y, s = setup(c)
    kw = {"show_" + k: v for k, v in c["show"].items() if v is not None}
    if c["fill"] is not None:
        kw["fill_individual"] = c["fill"]
    if c["scale"] is not None:
        kw["scale"] = c["scale"]
    if c["x"] is not None:
        kw["xlo"], kw["xhi"] = c["x"]
    if c["mask"] is not None:
        kw["mask_residual"] = c["mask"]
    if c["labels"] is not None:
        kw.update(datalabel=c["labels"][0], xlabel=c["labels"][1], ylabel=c["labels"][2])
    if c["cmp"] is not None:
        kw["cmp_height"] = c["cmp"]
    if c["limits"] is not None:
        kw["min_gr"], kw["max_gr"] = c["limits"]
    if c["post"]:
        kw["dgformatpost"] = lambda t: "<" + t + ">"
    shown = p
    if c["stability"] is not None:
        shown = PeakStability()
        shown.setppe(p)
        for i, e in enumerate(c["stability"]):
            m = peaks[: max(0, len(peaks) - i)]
            shown.results.append([e, m, b, c["grid"]["dr"]])
        for k, v in zip(("dgmin", "dgmax"), c["dglimits"]):
            if v is not None:
                kw[k] = v
        note("stability")
    before = session.state(p, True)
    plt.close("all")
    try:
        fd = app.makeplot(shown, c["ip"], **kw)
        fig = fd["fig"]
        if c["draw"]:
            fig.canvas.draw()
        d = session.diff(before, session.state(p, True), rtol=0)
        check(d is None, "plotting changed %s", d)
        scale = c["scale"] or 1.0
        rc = r[s]
        xlo, xhi = c["x"] or (rc[0], rc[-1])
        ax = fd["data"]
        check(ref.close(ax.get_xlim(), (xlo, xhi), 1e-9), "limits in x %s", ax.get_xlim())
        lines = list(ax.get_lines())
        x, v = xy(lines.pop(0))
        check(all(np.min(np.abs(x - q)) < 1e-9 for q in rc), "points of the data are missing")
        check(np.min(x) <= rc[0] + 1e-9 and np.all(np.diff(x) > 0), "points of the data in order")
        check(ref.close(v, resample(r, y, x) * scale, 1e-7, 1e-7), "data %s, expected %s", v, resample(r, y, x) * scale)
        model = lambda t: np.sum([q.value(t) for q in peaks], axis=0) + b.value(t)  # noqa: E731
        base = lambda t: b.value(t)  # noqa: E731
        top, low = [np.max(v)], [np.min(v)]
        if c["show"]["fit"] is not False:
            x, v = xy(lines.pop(0))
            check(abs(x[0] - rc[0]) < 1e-9 and rc[-1] - x[-1] < np.max(np.diff(rc)) and len(x) > len(rc), "range of the fit")
            check(ref.close(v, model(x) * scale, 1e-9, 1e-9), "fit %s, expected %s", v, model(x) * scale)
            top.append(np.max(v))
            low.append(np.min(v))
        if c["show"]["residual"] is not False:
            x, v = xy(lines.pop(0))
            u, z = xy(lines.pop(0))
            check(ref.close(u, (xlo, xhi)) and z[0] == z[1], "line of zero residual")
            res = (y[s] - model(rc)) * scale
            got = v - z[0]
            keep = np.ones(len(rc), dtype=bool) if c["mask"] is None else np.abs(res) <= c["mask"]
            sure = np.ones(len(rc), dtype=bool) if c["mask"] is None else np.abs(np.abs(res) - c["mask"]) > 1e-9
            check(ref.close(x, rc), "points of the residual")
            check(np.allclose(got[keep & sure], res[keep & sure], rtol=1e-7, atol=1e-7 * (1 + np.max(np.abs(v[keep])) if np.any(keep) else 1)), "residual %s, expected %s", got, res)
            lo, hi = ax.get_ylim()
            if c["limits"] is None and c["mask"] is None:
                check(np.min(v) >= lo - 1e-9 and np.max(v) <= np.min(low) + 1e-6 * (hi - lo), "the residual is below the data and within the limits")
        check(not lines or c["cmp"] == 0, "%d more lines", len(lines))
        fills = [q for q in ax.collections if len(q.get_paths())]
        if c["fill"] is not False:
            check(len(fills) == len(peaks), "%d peaks are filled, expected %d", len(fills), len(peaks))
            for q, f in zip(peaks, fills):
                vs = f.get_paths()[0].vertices
                if np.ptp(q.value(rc)) < 1e-6:
                    continue
                want = (base(vs[:, 0]) + q.value(vs[:, 0])) * scale
                low_ = base(vs[:, 0]) * scale
                t = 1e-6 * (1 + np.max(np.abs(want)))
                check(np.all((np.abs(vs[:, 1] - want) < t) | (np.abs(vs[:, 1] - low_) < t)), "outline of peak %s", q)
                check(np.any(np.abs(vs[:, 1] - np.max(want)) < t), "outline of peak %s reaches its maximum", q)
        else:
            check(not fills, "peaks are filled")
        lo, hi = ax.get_ylim()
        if c["limits"] is None:
            check(lo <= np.min(low) and np.max(top) <= hi, "data and fit within the limits %s", (lo, hi))
        if c["labels"] is not None:
            check(fd["datalabel"].get_text() == c["labels"][0], "label %r", fd["datalabel"].get_text())
            check(ax.get_xlabel() == c["labels"][1], "label of x %r", ax.get_xlabel())
            check(any(t.get_text() == c["labels"][2] for t in ax.texts), "label of y")
        else:
            check(fd["datalabel"] is None, "a label nobody asked for")
        # comparison of positions
        pos = [float(q.pars[0]) for q in peaks]
        if c["cmp"] == 0:
            check("cmp" not in fd, "a comparison nobody asked for")
        else:
            ls = fd["cmp"].get_lines()
            sticks = [[float(t) for t in xy(q)[0][::3]] for q in ls]
            want = ([c["ip"]] if c["ip"] is not None else []) + [pos]
            check(ref.close(sum(sticks[: len(want)], []), sum(want, [])), "positions compared %s, expected %s", sticks, want)
            sign = ([-1.0] if c["ip"] is not None else []) + [1.0]
            for q, k in zip(ls, sign):
                check(np.all(xy(q)[1][1::3] == k) and np.all(xy(q)[1][0::3] == 0), "comparison of positions: wrong side")
            check(ref.close(fd["cmp"].get_xlim(), (xlo, xhi)), "limits of the comparison")
            names = [t.get_text() for t in fd["cmp"].get_yticklabels()]
            check(names == (["ideal"] if c["ip"] is not None else []) + ["found"], "labels of the comparison %s", names)
        if c["stability"] is not None:
            x, v = xy(fd["dg"].get_lines()[0])
            within = lambda e: kw.get("dgmin", 0) <= e <= kw.get("dgmax", np.inf)  # noqa: E731
            want = sorted((float(q.pars[0]), e * scale) for e, m, _, _ in shown.results if within(e) for q in m if rc[0] <= q.pars[0] <= rc[-1])
            got = sorted(zip(x.tolist(), v.tolist()))
            check(len(want) == len(got) and ref.close(np.array(got).ravel(), np.array(want).ravel()), "positions by uncertainty %s, expected %s", got, want)
        else:
            check("dg" not in fd, "a series nobody asked for")
        if c["show"]["annotation"] is not False and c["cmp"] != 0:
            all_text = [t.get_text() for a in fig.get_axes() for t in a.texts]
            pre, post = (r"<$\delta$g=", ">") if c["post"] else (r"$\delta$g=", "")
            found = [t for t in all_text if t.startswith(pre) and t.endswith(post)]
            check(len(found) == 1, "no annotation among %s", all_text)
            mean = np.mean((c["e"] * (1 + c["rise"] * np.linspace(0, 1, len(r)) ** 3))[s])
            check(abs(float(found[0][len(pre) : len(found[0]) - len(post)]) - mean * scale) < 1.1e-6, "annotation %r of %r", found[0], mean * scale)
        elif c["show"]["annotation"] is False:
            check(not any("delta$g=" in t.get_text() for a in fig.get_axes() for t in a.texts), "an annotation nobody asked for")
    finally:
        plt.close("all")
        app.labeldict.clear()
    return len(peaks) > 0


@st.composite
def insets(draw):
    maybe = lambda s: draw(st.one_of(st.none(), s))  # noqa: E731
    place = st.integers(2, 18).map(lambda k: k / 4)
    return {
        "at": draw(st.lists(st.lists(place, max_size=4), min_size=1, max_size=4)),
        "errs": draw(st.lists(gen.floats(0.1, 3), min_size=4, max_size=4)),
        "ip": maybe(st.lists(place, max_size=4)),
        "limits": draw(st.tuples(st.one_of(st.none(), place), st.one_of(st.none(), place)).map(list)),
        "dg": draw(st.tuples(st.one_of(st.none(), st.integers(0, 3)), st.one_of(st.none(), st.integers(0, 3))).map(list)),
        "scale": maybe(st.sampled_from([2.0, 0.5])),
        "base": maybe(gen.floats(-3, 3)),
        "y": maybe(st.tuples(gen.floats(-3, -0.5), gen.floats(0.5, 3)).map(list)),
        "labels": maybe(st.just(["model", "result"])),
        "ax": draw(st.booleans()),
    }


@LAWS.law(insets, quick=200, thorough=1500, rule="non-trivial: >= 1 position within limits, another without")
def positions(c, note):
    """Positions compared and series of positions are those within the limits asked for, these included, at the place and scale asked for."""
    pf = ref.make_pf("G", 0.7)
    s = PeakStability()
    for e, at in zip(c["errs"], c["at"]):
        s.results.append([e, Peaks([pf.actualize([v, 0.3, 2.0], "pwa") for v in at]), None, 0.1])
    kw = {k: v for k, v in zip(("pmin", "pmax"), c["limits"]) if v is not None}
    inside = lambda v: kw.get("pmin", -np.inf) <= v <= kw.get("pmax", np.inf)  # noqa: E731
    seen = [bool(inside(v)) for at in c["at"] for v in at]
    plt.close("all")
    try:
        k2 = dict(kw)
        errs = [q[0] for q in s.results]
        for k, i in zip(("dgmin", "dgmax"), c["dg"]):
            if i is not None:
                k2[k] = errs[i % len(errs)]
        scale = c["scale"] or 1.0
        if c["scale"]:
            k2["scale"] = c["scale"]
        app.dgseries(s, **k2)
        within = lambda e: k2.get("dgmin", 0) * scale <= e * scale <= k2.get("dgmax", np.inf) * scale  # noqa: E731
        want = [(v, e * scale) for e, at in zip(errs, c["at"]) if within(e) for v in at if inside(v)]
        x, v = xy(plt.gca().get_lines()[0])
        check(sorted(zip(x.tolist(), v.tolist())) == sorted(want), "%s: positions by uncertainty %s, expected %s", k2, list(zip(x, v)), want)
        plt.close("all")
        k3 = dict(kw)
        base, (lo, hi) = c["base"] or 0.0, c["y"] or (-1.0, 1.0)
        if c["base"] is not None:
            k3["base"] = base
        if c["y"]:
            k3["yideal"], k3["yext"] = c["y"]
        if c["labels"]:
            k3["yideal_label"], k3["yext_label"] = c["labels"]
        if c["ax"]:
            k3["ax"] = plt.gca()
        m = ModelCluster(s.results[0][1], None, np.arange(1.0, 5, 0.1), np.zeros(40), np.ones(40), None, mc.evaluator("AIC"), [pf])
        app.comparepositions(m, *([] if c["ip"] is None else [c["ip"]]), **k3)
        ax = plt.gca()
        ls = ax.get_lines()
        sides = ([[c["ip"], lo]] if c["ip"] is not None else []) + [[[v for v in c["at"][0] if inside(v)], hi]]
        for line, (at, height) in zip(ls, sides):
            x, v = xy(line)
            check(x[0::3].tolist() == x[1::3].tolist() == [float(q) for q in at] and np.all(np.isnan(x[2::3])), "%s: positions %s, expected %s", k3, x, at)
            check(ref.close(v[0::3], base + 0 * v[0::3]) and ref.close(v[1::3], base + height + 0 * v[1::3]), "%s: heights %s", k3, v)
        names = (c["labels"] or ["ideal", "found"])[0 if c["ip"] is not None else 1 :]
        check([t.get_text() for t in ax.get_yticklabels()] == names, "labels, expected %s", names)
        check(ref.close(ax.get_ylim(), (base + (lo if c["ip"] is not None else 0), base + hi)), "limits %s", ax.get_ylim())
    finally:
        plt.close("all")
    return any(seen) and not all(seen)


@st.composite
def simple(draw):
    c = draw(models())
    c["joined"] = draw(st.sampled_from([None, True, False]))
    c["clusters"] = draw(st.sampled_from([0.0, 0.1, 0.3, 1.0]))
    c["steps"] = draw(st.integers(0, 90))
    c["live"] = draw(st.booleans())
    return c


@LAWS.law(simple, quick=60, thorough=900, rule="non-trivial: >= 1 peak shown")
def curves(c, note):
    """The simple plots show data and model, together or peak by peak; plots of clusters show their boundaries; showing, animating or live plotting changes nothing."""
    p, peaks, b, r, y, s = setup(c)
    plt.close("all")
    try:
        before = session.state(p, True)
        p.plot(**({} if c["joined"] is None else {"joined": c["joined"]}))
        check(session.diff(before, session.state(p, True), rtol=0) is None, "plotting changed the extraction")
        lines = plt.gca().get_lines()
        rc = r[s]
        want = [y[s]]
        if c["joined"]:
            want.append(np.sum([q.value(rc) for q in peaks], axis=0) + b.value(rc))
        else:
            want += [q.value(rc) + b.value(rc) for q in peaks]
        check(len(lines) == len(want), "%d curves, expected %d", len(lines), len(want))
        for line, w in zip(lines, want):
            x, v = xy(line)
            check(ref.close(x, rc) and ref.close(v, w, 1e-9, 1e-9), "curve %s, expected %s", v, w)
        plt.close("all")
        # clusters
        d = DataClusters(r, y, c["clusters"])
        for _ in range(c["steps"]):
            try:
                d.__next__()
            except StopIteration:
                break
        keep = [list(map(int, u)) for u in d.clusters], d.current_idx, d.lastcluster_idx, d.lastpoint_idx, d.status
        d.plot("g.-")
        ax = plt.gca()
        lines = ax.get_lines()
        x, v = xy(lines[0])
        check(np.array_equal(x, r) and np.array_equal(v, y), "data of the clusters")
        got = sorted(float(xy(q)[0][0]) for q in lines[1:])
        want = sorted(float(u[0]) for u in d.cluster_boundaries())
        check(ref.close(got, want), "boundaries %s, expected %s", got, want)
        if c["live"]:
            d.animate()
        now = [list(map(int, u)) for u in d.clusters], d.current_idx, d.lastcluster_idx, d.lastpoint_idx, d.status
        check(now == keep, "showing clusters changed %s to %s", keep, now)
        plt.close("all")
        # live plotting of a fit
        if len(peaks):
            results = []
            for live in (False, True):
                srmiselog.liveplotting(live)
                m = ModelCluster(peaks.copy(), b.copy(), r[s], y[s], c["e"] * np.ones(len(rc)), None, p.error_method, p.pf)
                m.fit()
                results.append([[float(v) for v in q.pars] for q in m.model])
            check(results[0] == results[1], "live plotting changes the fit: %s, %s", *results)
    finally:
        srmiselog.liveplotting(False)
        plt.close("all")
    return len(peaks) > 0


@st.composite
def lists(draw):
    word = st.one_of(gen.floats(0.1, 30).map(repr), gen.floats(0.1, 30).map(lambda v: "%g" % v), st.integers(1, 99).map(str))
    line = st.one_of(word, word.map(lambda w: "  " + w), word.map(lambda w: w + " \t"))
    bad = st.sampled_from(["abc", "1.0 2.0", "# later", "1,5", ""])
    return {
        "head": draw(st.lists(st.sampled_from(["# distances", "#", "## 3.5", "#1.25"]), max_size=3)),
        "lines": draw(st.lists(line, max_size=8)),
        "bad": draw(st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 8), bad).map(list))),
        "eol": draw(st.sampled_from(["\n", "\r\n"])),
        "end": draw(st.sampled_from(["", "\n", "\n\n"])),
    }


@LAWS.law(lists, quick=400, thorough=4000, rule="non-trivial: >= 2 distances after a comment")
def readcompare(c, note):
    """Distances to compare are read, one per line after any comments; a file which is not such a list is ignored as a whole."""
    lines = list(c["lines"])
    ok = True
    if c["bad"] is not None:
        i = min(c["bad"][0], len(lines))
        inner = 0 < i < len(lines)
        if c["bad"][1] == "" and not inner:
            ok = len(lines) > 0  # blank lines around the list do not matter
        else:
            ok = False
        lines.insert(i, c["bad"][1])
    if c["bad"] is not None and c["bad"][1] == "# later":
        # a comment before all distances is a comment
        i = lines.index("# later")
        if i == 0 and len(lines) > 1:
            ok = True
    text = c["eol"].join(c["head"] + lines) + c["end"].replace("\n", c["eol"])
    with open("compare.txt", "w", newline="") as f:
        f.write(text)
    with contextlib.redirect_stdout(io.StringIO()):
        got = app.readcompare("compare.txt")
    os.unlink("compare.txt")
    if not c["lines"]:
        ok = False
    want = [float(w) for w in c["lines"]] if ok else None
    check(got == want, "%r is read as %s, expected %s", text, got, want)
    try:
        app.readcompare("nosuchfile.txt")
    except OSError:
        pass
    else:
        check(False, "a missing file is read")
    note("list" if ok else "no list")
    return ok and len(c["lines"]) > 1 and len(c["head"]) > 0


@st.composite
def surfaces(draw):
    c = draw(C23.selection())
    c["probfilter"] = draw(st.sampled_from([None, [0.0, 0.9], [0.1, 1.0], [0.0, 1.0]]))
    c["pick"] = draw(st.booleans())
    c["size"] = draw(st.sampled_from([None, "number", "fraction"]))
    c["norm"] = draw(st.sampled_from([None, "auto", "full"]))
    c["title"] = draw(st.sampled_from([None, True, False, "hello"]))
    c["light"] = draw(st.booleans())
    c["scale"] = draw(st.sampled_from([None, None, 2.0, 0.1]))
    c["few"] = draw(st.sampled_from([None, None, "array", "list"]))
    c["cbpos"] = draw(st.booleans())
    return c


@LAWS.law(surfaces, quick=25, thorough=500, rule="non-trivial: >= 2 classes shown")
def classprobs(c, note):
    """The plot of class probabilities shows the classes asked for with their probabilities, sizes and highlights."""
    p, results, r = C23.build(c)
    ms = MultimodelSelection()
    ms.setppe(p)
    ms.results = results
    dgs = sorted(c["dgs"])
    if len(dgs) < 2:
        dgs = dgs + [dgs[0] + 1.0]
    C23.quietly(ms.makeaics, dgs, c["dr"])
    ms.classify(r)
    kw = {}
    f = c["probfilter"]
    if f is not None:
        kw["probfilter"] = f
    if c["size"]:
        kw["class_size"] = c["size"]
    if c["norm"]:
        kw["norm"] = c["norm"]
    if c["title"] is not None:
        kw["title"] = c["title"]
    if c["light"]:
        kw["highlight"] = [dgs[0], dgs[-1]]
    if c["cbpos"]:
        kw["cbpos"] = (0.1, 0.1, 0.05, 0.5)
    scale = c["scale"] or 1.0
    if c["scale"]:
        kw["scale"] = scale
    if c["few"] and len(dgs) > 2:
        dgs = dgs[:2]
        kw["dGs"] = np.array(dgs) if c["few"] == "array" else list(dgs)
        if c["light"]:
            kw["highlight"] = [dgs[0], dgs[-1]]
    wanted = list(range(len(ms.classes)))
    if c["pick"]:
        wanted = wanted[1:] or wanted
        kw["classes"] = wanted
    lo, hi = f or [0.0, 1.0]
    mx = {i: max(ms.classprobs[d][i] for d in dgs) for i in wanted}
    shown = [i for i in wanted if lo <= mx[i] <= hi]
    if not shown:
        return False
    plt.close("all")
    try:
        fd = C23.quietly(ms.plot3dclassprobs, **kw)
        ax = fd["axis"]
        names = [t.get_text() for t in ax.get_yticklabels()]
        check(names == [str(i) for i in shown], "classes shown %s, expected %s", names, shown)
        polys = [q for q in ax.collections if type(q).__name__ == "Poly3DCollection"]
        check(len(polys) == 1, "%d sets of areas", len(polys))
        fd["fig"].canvas.draw()
        check(len(polys[0].get_facecolor()) >= 1, "areas without colour")
        lines = [np.array(q.get_data_3d()) for q in ax.get_lines()]
        want = [[[d * scale, d * scale], [k, k], [0, ms.classprobs[d][i]]] for d in kw.get("highlight", []) for k, i in enumerate(shown)]
        check(len(lines) == len(want) and all(ref.close(a, b) for a, b in zip(lines, want)), "highlights %s, expected %s", lines, want)
        faces = getattr(polys[0], "_faces", None)
        if faces is not None:
            faces = np.ma.filled(np.ma.array(faces), np.nan)
            check(len(faces) == len(shown), "%d areas, %d classes", len(faces), len(shown))
            for k, i in enumerate(shown):
                for d in dgs:
                    v = [d * scale, k, ms.classprobs[d][i]]
                    check(any(np.allclose(u, v, rtol=1e-9, atol=1e-12) for u in faces[k]), "class %d: no point %s among %s", i, v, faces[k])
        check(ref.close(ax.get_xlim3d(), (dgs[0] * scale, dgs[-1] * scale)) and ref.close(ax.get_zlim3d(), (0, 1)), "limits")
        st_ = fd["fig"]._suptitle
        text = None if st_ is None else st_.get_text()
        if c["title"] is False:
            check(text is None, "title %r", text)
        elif c["title"] == "hello":
            check(text == "hello", "title %r", text)
        else:
            n = sum(len(ms.classes[i]) for i in shown)
            for part in ("%i/%i classes" % (len(shown), len(ms.classes)), "%i/%i models" % (n, len(results))):
                check(part in text, "title %r lacks %r", text, part)
        label = fd["cbaxis"].get_ylabel() or fd["cbaxis"].get_xlabel()
        check(label == ("Fraction of models in class" if c["size"] == "fraction" else "Models in class"), "label %r", label)
    finally:
        plt.close("all")
    return len(shown) > 1


@st.composite
def commands(draw):
    c = draw(models())
    c["state"] = draw(st.sampled_from(["extracted", "initial", "bare"]))
    c["stability"] = draw(st.booleans())
    c["model"] = draw(st.sampled_from([None, 0, 1]))
    c["compare"] = draw(st.sampled_from([None, "list", "junk"]))
    c["format"] = draw(st.sampled_from(["svg", "pdf"]))
    c["bad"] = draw(st.sampled_from([None] * 6 + ["missing", "junk", "none", "two"]))
    return c


@LAWS.law(commands, quick=16, thorough=200, rule="non-trivial: a figure is written")
def command(c, note):
    """The plotting command shows a session or stability file, with the model and distances asked for, and writes the figure; other files are refused."""
    p, peaks, b, r, y, s = setup(c)
    for f in ("in.srmise", "dist.txt", "fig.out"):
        if os.path.exists(f):
            os.unlink(f)
    if c["stability"]:
        t = PeakStability()
        t.setppe(p)
        t.results = [[0.5, peaks, b, 0.05], [2.0, peaks[:0], b, 0.05]]
        t.save("in.srmise")
    else:
        p.write("in.srmise")
    args = ["in.srmise", "-o", "fig.out", "--format", c["format"]]
    if c["model"] is not None:
        args += ["--model", str(c["model"])]
    if c["compare"]:
        with open("dist.txt", "w") as f:
            f.write("# d\n2.5\n3.25\n" if c["compare"] == "list" else "abc\n")
        args += ["--compare", "dist.txt"]
    if c["bad"] == "missing":
        args[0] = "nosuch.srmise"
    elif c["bad"] == "junk":
        with open("in.srmise", "w") as f:
            f.write("nothing of interest\n" * 3)
    elif c["bad"] == "none":
        args = args[1:]
    elif c["bad"] == "two":
        args = ["in.srmise"] + args
    seen = {}
    real, old, out = app.makeplot, sys.argv, io.StringIO()

    def makeplot(*a, **k):
        seen["args"] = (a, k)
        seen["fd"] = real(*a, **k)
        return seen["fd"]

    app.makeplot, sys.argv, code = makeplot, ["srmise-plot"] + args, None
    plt.close("all")
    rc = dict(plt.rcParams)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            app.main()
    except SystemExit as exc:
        code = exc.code
    finally:
        app.makeplot, sys.argv = real, old
        plt.rcParams.update({k: v for k, v in rc.items() if plt.rcParams.get(k) != v})
    try:
        if c["bad"]:
            check(code or "is not a" in out.getvalue(), "command %s is accepted: %s", args, out.getvalue())
            check("fd" not in seen and not os.path.exists("fig.out"), "command %s plots", args)
            note("refused")
            return False
        check(code in (None, 0), "command %s exits with %r", args, code)
        with open("fig.out", "rb") as f:
            head = f.read(400)
        check((b"%PDF" in head) if c["format"] == "pdf" else (b"<svg" in head or b"<?xml" in head), "format of the figure: %r", head[:40])
        fd = seen["fd"]
        empty = c["stability"] and c["model"] == 1
        # a stability file starts with its first model; the data it shows are sampled
        want = [] if empty else [float(q.pars[0]) for q in peaks]
        ls = fd["cmp"].get_lines()
        n = 2 if c["compare"] == "list" else 1
        if n == 2:
            check(ref.close(xy(ls[0])[0][::3], [2.5, 3.25]), "distances compared %s", xy(ls[0])[0][::3])
        got = [float(v) for v in xy(ls[n - 1])[0][::3]]
        check(len(got) == len(want) and ref.close(got, want, 1e-5), "peaks shown %s, expected %s", got, want)
        check(("dg" in fd) == c["stability"], "series by uncertainty")
        if c["model"] is not None and not c["stability"]:
            check("Ignoring model" in out.getvalue(), "no notice that the model is ignored")
    finally:
        plt.close("all")
        app.labeldict.clear()
        for f in ("in.srmise", "dist.txt", "fig.out"):
            if os.path.exists(f):
                os.unlink(f)
    return True


@st.composite
def watched(draw):
    from props import C11

    c = draw(C11.noisy())
    c["wait"] = draw(st.booleans())
    c["fits"] = draw(st.integers(1, 2))
    return c


@LAWS.law(watched, quick=60, thorough=600, rule="non-trivial: >= 2 parts, a fit which succeeds")
def live(c, note):
    """Live plots show data, residual and parts before and after each fit, wait if asked to, and leave the fit as it is."""
    from unittest import mock

    from props import C11

    r, y, e = C11.dataset(c)
    quiet, shown = (C11.parts(c, c["shifts"], c["frees"]) for _ in range(2))
    for ps in (quiet, shown):
        C11.mirror(ps, c["flip"])
    free = sum(p.npars(False) for p in quiet)
    s = slice(None) if c["rng"] is None else slice(*c["rng"])
    down = 1.1 * (max(y) - min(y))

    def expected(ps):
        return [y, (y - ps.value(r, s)) - down] + [p.value(r, s) for p in ps]

    keys, ok = [], False
    plt.close("all")
    for bad in ((1, False), (None, True), (True, "yes"), (False, 0)):
        try:
            srmiselog.liveplotting(*bad)
        except ValueError:
            srmiselog.liveplotting(False)
            continue
        srmiselog.liveplotting(False)
        check(False, "live plotting accepts %r", bad)
    try:
        for _ in range(c["fits"]):
            n = len(keys)
            wanted = expected(quiet)
            ok = C11.fit(quiet, r, y, e, c["rng"])
            srmiselog.liveplotting(True, c["wait"])
            with mock.patch("builtins.input", lambda *a: keys.append(1)), contextlib.redirect_stdout(io.StringIO()) as out:
                ok2 = C11.fit(shown, r, y, e, c["rng"])
            srmiselog.liveplotting(False)
            check(ok == ok2 and all(np.array_equal(a.pars, b.pars) for a, b in zip(quiet, shown)), "live plots change the fit: %s, %s", shown, quiet)
            check(plt.get_fignums() == ([1] if free and free < len(r) else []), "figures %s", plt.get_fignums())
            if not plt.get_fignums():
                return False
            axes = {a.get_title(): [np.array(q.get_ydata(), dtype=float) for q in a.get_lines()] for a in plt.figure(1).get_axes()}
            check(sorted(axes) == ["After", "Before"], "panels %s", sorted(axes))
            for name, want in (("Before", wanted), ("After", expected(quiet) if ok else None)):
                if want is None:
                    continue
                got = axes[name]
                check(len(got) == len(want), "%d curves %s the fit, expected %d", len(got), name.lower(), len(want))
                for i, (a, b) in enumerate(zip(got, want)):
                    check(ref.close(a, b, 1e-9, 1e-9), "curve %d %s the fit differs", i, name.lower())
            check(len(keys) - n == (1 if c["wait"] else 0), "asked for %d keys", len(keys) - n)
            check(c["wait"] == ("Press" in out.getvalue()), "printed %r", out.getvalue())
    finally:
        srmiselog.liveplotting(False)
        plt.close("all")
    return len(quiet) > 1 and ok


@st.composite
def spectra(draw):
    return {
        "n": draw(st.integers(10, 90)),
        "dr": draw(st.sampled_from([0.02, 0.1, 0.5])),
        "r0": draw(st.sampled_from([0.0, 1.0])),
        "f": draw(gen.floats(0.15, 0.95)),
        "waves": draw(st.integers(1, 12)),
    }


@LAWS.law(spectra, quick=60, thorough=900, rule="non-trivial: a cutoff found")
def spectrum(c, note):
    """The graphs of the cutoff show the transform of the data, whole and near the cutoff, which is marked, and do not change it."""
    from unittest import mock

    n = c["n"]
    r = c["r0"] + c["dr"] * np.arange(n)
    top = c["f"] * np.pi / c["dr"]
    y = sum(np.sin(top * (k + 1) / c["waves"] * r + k) for k in range(c["waves"]))
    q, dq = find_qmax(r, y)
    plt.close("all")
    keys = []
    try:
        with mock.patch("builtins.input", lambda *a: keys.append(1)), mock.patch.object(plt, "show", lambda *a, **k: None):
            got = find_qmax(r, y, True)
        check(got == (q, dq), "with graphs %s, without %s", got, (q, dq))
        check(len(keys) == 1 and len(plt.get_fignums()) == 1, "%d keys, %d figures", len(keys), len(plt.get_fignums()))
        fig = plt.gcf()
        new_r = np.linspace(r[0], r[-1], 2 * n)
        new_y = resample(r, y, new_r)
        k = np.arange(n)
        want = -np.sin(2 * np.pi * np.outer(k, np.arange(2 * n)) / (2 * n)) @ new_y
        axes = fig.get_axes()
        check(len(axes) == 2, "%d panels", len(axes))
        near, whole = (a.get_lines() for a in axes)
        x, v = (np.array(u, dtype=float) for u in whole[0].get_data())
        check(ref.close(x, dq * k, 1e-9), "frequencies %s, spacing %r", x, dq)
        check(ref.close(v, want, 1e-7, 1e-9), "transform shown")
        x1, v1 = (np.array(u, dtype=float) for u in near[0].get_data())
        check(0 < len(x1) <= n, "%d points near the cutoff", len(x1))
        i = int(round(x1[0] / dq))
        check(ref.close(x1, x[i : i + len(x1)], 1e-9) and ref.close(v1, v[i : i + len(x1)], 1e-12), "part of the transform")
        check(x1[0] <= q + 1e-9 and q <= x1[-1] + 1.5 * dq, "the part from %r to %r misses the cutoff %r", x1[0], x1[-1], q)
        for lines in (near, whole):
            check(len(lines) == 2 and np.allclose(np.ravel(lines[1].get_xdata()), q), "marks of the cutoff %s", [list(w.get_xdata()) for w in lines[1:]])
        check(str(q) in fig._suptitle.get_text() and str(dq) in fig._suptitle.get_text(), "title %r", fig._suptitle.get_text())
    finally:
        plt.close("all")
    return q < np.pi / c["dr"]
