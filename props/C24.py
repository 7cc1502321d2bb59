"""Robustness of peaks: extraction over several uncertainties, and looking through the results."""

import contextlib
import io
import os
from unittest import mock

import numpy as np
from hypothesis import strategies as st

from diffpy.srmise.baselines.fromsequence import FromSequence
from diffpy.srmise.baselines.nanospherical import NanoSpherical
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.modelcluster import ModelCluster, ModelCovariance
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peakstability import PeakStability
from harness import gen, mc, ref, session
from harness.core import LawSet, check
from props import C20

LAWS = LawSet("C24", assumptions=["at least one result is kept when results are saved and loaded"])


def quietly(f, *args, **kwds):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kwds)


@st.composite
def runs(draw):
    truth = draw(C20.truth(0.2, 1.3))[: draw(st.sampled_from([1, 2, 2]))]
    return {
        "truth": truth,
        "kind": draw(ref.KINDS),
        "qmax": draw(st.sampled_from([0.0, 0.0, 0.0, 25.0])),
        "nyquist": draw(st.booleans()),
        "dr": draw(st.sampled_from([0.05, 0.08])),
        "base": draw(st.sampled_from(["none", "slope", "nano"])),
        "slope": draw(gen.floats(0, 0.6)),
        "noise": draw(st.sampled_from([0.0, 0.1, 0.3])),
        "errs": draw(st.lists(st.one_of(gen.floats(0.1, 0.6), gen.floats(0.5, 3)), min_size=1, max_size=3)),
        "as": draw(st.sampled_from(["list", "array"])),
        "covs": draw(st.sampled_from([None, False, True])),
        "crop": draw(st.one_of(st.none(), gen.floats(0.0, 0.3))),
        "eval": draw(st.sampled_from(["AIC", "AICc"])),
        "cres": draw(st.sampled_from([0.1, 0.2])),
        "dirty": draw(st.booleans()),
        "known": draw(st.booleans()),
        "look": draw(st.lists(st.integers(0, 3), max_size=4)),
    }


def extraction(c, pf, r, y, b):
    p = PDFPeakExtraction()
    p.setdata(r, y)
    kw = {"pf": [pf], "cres": c["cres"], "error_method": mc.evaluator(c["eval"]), "qmax": c["qmax"], "nyquist": c["nyquist"]}
    if b is not None:
        kw["baseline"] = b
    if c["crop"] is not None:
        kw["rng"] = [r[0] + c["crop"], r[-1] - c["crop"]]
    if c["known"]:
        kw["initial_peaks"] = Peaks([pf.actualize(list(c["truth"][0]), "pwa")])
    p.setvars(quiet=True, **kw)
    return p


def same(a, b, what):
    d = session.diff([session.part_of(q, None) for q in a[0]], [session.part_of(q, None) for q in b[0]], what, 1e-9)
    check(len(a[0]) == len(b[0]) and d is None, "%s", d or (a, b))
    d = session.diff(session.part_of(a[1], None), session.part_of(b[1], None), what, 1e-9)
    check(d is None, "%s", d)


@LAWS.law(runs, quick=36, thorough=600, rule="non-trivial: >= 2 uncertainties and >= 1 peak found")
def series(c, note):
    """Each result of a run is that of an extraction of its own with this uncertainty; looking at it again shows the same model with the same quality."""
    pf, r, y, b = C20.data(c)
    y = y + c["noise"] * np.sin(31.0 * r + np.arange(len(r)) ** 2)
    ppe = extraction(c, pf, r, y, b)
    s = PeakStability()
    s.setppe(ppe)
    if c["dirty"]:
        # remains of an earlier run
        quietly(s.run, [1.0])
        s.setcurrent(0)
    errs = np.array(c["errs"]) if c["as"] == "array" else list(c["errs"])
    kw = {} if c["covs"] is None else {"savecovs": c["covs"]}
    settings = [ppe.cres, list(ppe.rng), ppe.qmax, ppe.nyquist]
    covs = quietly(s.run, errs, **kw)
    check([ppe.cres, list(ppe.rng), ppe.qmax, ppe.nyquist] == settings, "settings changed by the run")
    check(np.array_equal(ppe.x, r) and np.array_equal(ppe.y, y), "data changed by the run")
    check([float(q[0]) for q in s.results] == c["errs"], "uncertainties %s, expected %s", [q[0] for q in s.results], c["errs"])
    check(len(covs) == (len(c["errs"]) if c["covs"] else 0), "%d covariances", len(covs))
    found, quality, points, funcs = 0, [], [], []
    for i, e in enumerate(c["errs"]):
        q = extraction(c, pf, r, y, b)
        q.setvars(quiet=True, effective_dy=e * np.ones(len(r)))
        cov = q.extract()
        x = q.extracted
        got = s.results[i]
        same(got[1:3], (x.model, x.baseline), "result %d" % i)
        rc = x.r_cluster
        check(len(rc) < 2 or ref.close(got[3], (rc[-1] - rc[0]) / (len(rc) - 1), 1e-9), "spacing %r of result %d", got[3], i)
        if c["covs"]:
            check(isinstance(covs[i], ModelCovariance), "covariance %r", covs[i])
            check((cov.cov is None) == (covs[i].cov is None), "covariance of result %d", i)
            if cov.cov is not None:
                check(ref.close(np.array(covs[i].cov), np.array(cov.cov), 1e-6, 1e-12), "covariance of result %d", i)
        found += len(x.model)
        quality.append(x.quality().stat)
        points.append(rc)
        funcs.append(len(x.model))
    for i in c["look"]:
        i = i % len(s.results)
        before = [[session.part_of(p, None) for p in q[1]] for q in s.results]
        s.setcurrent(i)
        x = s.ppe.extracted
        check(s.current == i, "current %r", s.current)
        same((x.model, x.baseline), s.results[i][1:3], "current %d" % i)
        check(np.all(s.ppe.effective_dy == c["errs"][i]) and len(s.ppe.effective_dy) == len(r), "uncertainties %s", s.ppe.effective_dy)
        rr, yy, _, ee = extraction(c, pf, r, y, b).resampledata(s.results[i][3])
        check(ref.close(x.r_cluster, rr) and ref.close(x.y_cluster, yy), "points %s, expected %s", x.r_cluster, rr)
        if len(points[i]) == len(x.r_cluster) and ref.close(x.r_cluster, points[i], 1e-9, 1e-9):
            check(ref.close(x.quality().stat, quality[i], 1e-6, 1e-6), "quality %r, extracted with %r", x.quality().stat, quality[i])
            note("as extracted")
        after = [[session.part_of(p, None) for p in q[1]] for q in s.results]
        check(session.diff(before, after, rtol=0) is None, "looking changed the results")
    note("covariances" if c["covs"] else "no covariances")
    if len(set(funcs)) > 1:
        note("number of peaks depends on the uncertainty")
    return len(c["errs"]) > 1 and found > 0


@st.composite
def histories(draw):
    fl = lambda n: st.lists(st.booleans(), min_size=n, max_size=n)  # noqa: E731
    peak = st.fixed_dictionaries(
        {
            "f": st.integers(0, 1),
            "pwa": st.tuples(gen.floats(1.5, 6), gen.floats(0.1, 0.6), gen.floats(0.5, 9)).map(list),
            "free": fl(3),
            "removable": st.booleans(),
        }
    )
    op = st.one_of(
        st.tuples(st.just("current"), st.integers(0, 9)),
        st.tuples(st.just("current"), st.integers(0, 9)),
        st.tuples(st.just("none")),
        st.tuples(st.just("plot")),
        st.tuples(st.just("series"), st.sampled_from([None, "x", "s"])),
        st.tuples(st.just("animate"), st.one_of(st.none(), st.lists(st.integers(0, 9), max_size=4)), st.sampled_from([None, False, True])),
        st.tuples(st.just("reload"), st.booleans()),
        st.tuples(st.just("save")),
    )
    return {
        "kind": draw(ref.KINDS),
        "ripple": draw(st.booleans()),
        "dr": draw(st.sampled_from([0.05, 0.1])),
        "y": draw(gen.floats(0.5, 9)),
        "base": draw(st.sampled_from(["poly-1", "poly0", "poly1", "nano", "seq"])),
        "given": draw(st.sampled_from(["part", "function", "none"])),
        "eval": draw(st.sampled_from(["AIC", "AICc"])),
        "results": draw(
            st.lists(
                st.fixed_dictionaries(
                    {
                        "e": gen.floats(0.02, 5),
                        "peaks": st.lists(peak, max_size=3),
                        "pars": st.lists(gen.floats(0.2, 12), min_size=2, max_size=2),
                        "free": fl(2),
                        "removable": st.booleans(),
                        "nobase": st.integers(0, 4),
                        "dr": st.sampled_from([None, 0.1, 0.17]),
                    }
                ),
                min_size=draw(st.sampled_from([1, 2, 3])),
                max_size=5,
            )
        ),
        "ops": [list(o) for o in draw(st.lists(op, min_size=draw(st.sampled_from([1, 4])), max_size=8))],
        "name": draw(st.sampled_from(["stability.dat", "a b.p"])),
    }


def described(s):
    return [{"e": float(e), "peaks": [session.part_of(p, None) for p in m], "base": session.part_of(b, None), "dr": float(dr)} for e, m, b, dr in s.results]


@LAWS.law(histories, quick=200, thorough=3000, rule="non-trivial: >= 2 results, saved and loaded, shown after a change or animated")
def looking(c, note):
    """Whatever is shown, saved or loaded, the results stay what they were and the current model is the one chosen."""
    import matplotlib.pyplot as plt

    from diffpy.srmise.peaks.terminationripples import TerminationRipples

    f0 = ref.make_pf(c["kind"], 0.7)
    fns = [f0, TerminationRipples(f0, 20.0) if c["ripple"] else ref.make_pf("G" if c["kind"] == "R" else "R", 0.9)]
    r = np.arange(1.0, 7.0, c["dr"])
    y = c["y"] * np.sin(3 * r) + c["y"]
    nb = {"poly-1": 0, "poly0": 1, "poly1": 2, "nano": 2, "seq": 0}[c["base"]]
    x0, y0 = [0.0, 1.5, 4.0, 9.0], [0.0, 1.0, -1.5, 0.25]
    bf = {"nano": NanoSpherical, "seq": lambda: FromSequence(x0, y0)}.get(c["base"], lambda: Polynomial(int(c["base"][4:])))()
    kw = {}
    if c["given"] == "function" and c["base"] != "seq":
        kw["baseline"] = bf
    elif c["given"] != "none" or c["base"] == "seq":
        kw["baseline"] = bf.actualize([1.0, 5.0][:nb])
    nobase = "baseline" not in kw
    ppe = PDFPeakExtraction()
    ppe.setdata(r, y)
    ppe.setvars(quiet=True, pf=fns, error_method=mc.evaluator(c["eval"]), qmax=0.0, cres=0.1, **kw)
    if not nobase:
        # a function whose parameters cannot be estimated from the data is not used
        probe = PDFPeakExtraction()
        probe.setdata(r, y)
        probe.setvars(quiet=True, qmax=0.0, **kw)
        probe.defaultvars()
        nobase = type(probe.baseline.owner()) is not type(bf)
    s = PeakStability()
    s.setppe(ppe)
    for q in c["results"]:
        m = Peaks([fns[p["f"]].actualize(list(p["pwa"]), "pwa", free=p["free"], removable=p["removable"]) for p in q["peaks"]])
        if nobase or q["nobase"] == 0:
            b = None
        else:
            b = bf.actualize(q["pars"][:nb], free=q["free"][:nb], removable=q["removable"])
        s.results.append([q["e"], m, b, q["dr"] or c["dr"]])
    want = described(s)
    path = os.path.abspath(c["name"])
    current, stored, nontrivial = None, False, False
    for op in c["ops"]:
        what = op[0]
        if what == "current":
            current = op[1] % len(want)
            s.setcurrent(current)
        elif what == "none":
            current = None
            s.setcurrent(None)
        elif what == "plot":
            if current is None:
                continue
            fig = plt.figure()
            s.plot()
            x, e = s.ppe.extracted, want[current]["e"]
            q = x.quality()
            title = fig._suptitle.get_text()
            text = "[%i/%i]\nUncertainty: %6.3f. Peaks: %i.\nQuality: %6.3f.  Chi-square: %6.3f" % (current + 1, len(want), e, len(want[current]["peaks"]), q.stat, q.chisq)
            check(title.split() == text.split(), "title %r, expected %r", title, text)
            lines = plt.gca().get_lines()
            check(len(lines) == len(x.plottable()) // 2, "%d curves", len(lines))
            check(ref.close(lines[0].get_ydata(), x.y_cluster, 1e-12), "data shown")
            plt.close("all")
            nontrivial = len(want) > 1
        elif what == "series":
            plt.close("all")
            s.plotseries(*([] if op[1] is None else [op[1]]))
            lines = plt.gca().get_lines()
            shown = [[[float(v) for v in a.get_xdata()], [float(v) for v in a.get_ydata()]] for a in lines]
            wanted = [[[p["pars"][0] for p in w["peaks"]], [w["e"]] * len(w["peaks"])] for w in want]
            check(shown == wanted, "shown %s, expected %s", shown, wanted)
            check(all(a.get_marker() == (op[1] or "o") for a in lines), "style of the points")
            plt.close("all")
        elif what == "animate":
            plt.close("all")
            order = list(range(len(want))) if op[1] is None else [i % len(want) for i in op[1]]
            seen, keys = [], []

            def frame():
                x = s.ppe.extracted
                title = "" if plt.gcf()._suptitle is None else plt.gcf()._suptitle.get_text()
                seen.append((s.current, title.split(), [np.array(q.get_ydata(), dtype=float) for q in plt.gca().get_lines()], [np.array(v, dtype=float) for v in x.plottable()[1::2]]))

            with mock.patch.object(plt, "draw", frame), mock.patch("builtins.input", lambda *a: keys.append(len(seen))):
                kw = {} if op[2] is None else {"step": op[2]}
                s.animate(**kw) if op[1] is None else s.animate(order, **kw)
            plt.close("all")
            check([q[0] for q in seen] == order, "shown %s, expected %s", [q[0] for q in seen], order)
            for i, title, lines, model in seen:
                check(title[:1] == ["[%i/%i]" % (i + 1, len(want))] and title[2] == ("%6.3f." % want[i]["e"]).strip(), "title %r of model %d", title, i)
                check(len(lines) == len(model) and all(ref.close(a, b, 1e-12) for a, b in zip(lines, model)), "curves shown for model %d", i)
            check(keys == (list(range(1, len(order) + 1)) if op[2] else []), "keys asked for after frames %s", keys)
            note("animated")
            nontrivial = nontrivial or len(order) > 1
        elif what == "save":
            s.save(path)
            stored = True
        elif what == "reload":
            if not stored:
                s.save(path)
                stored = True
            if op[1]:
                s = PeakStability()
            s.load(path)
            current = 0
            nontrivial = len(want) > 1
            check(isinstance(s.ppe, PDFPeakExtraction) and s.ppe is not ppe, "extraction %r", s.ppe)
            check(ref.close(s.ppe.x, r, 1e-5) and ref.close(s.ppe.y, y, 1e-5), "data loaded differ")
            d = session.diff([session.fn_of(f) for f in fns], [session.fn_of(f) for f in s.ppe.pf], "pf")
            check(d is None and s.ppe.error_method is mc.evaluator(c["eval"]), "settings loaded differ: %s", d)
            note("loaded, baseline " + (c["given"] if not nobase else "none"))
        d = session.diff(want, described(s), "results", 0)
        check(d is None, "after %s: %s", op, d)
        check(s.current == current, "after %s: current is %r, expected %r", op, s.current, current)
        x = s.ppe.extracted
        if current is None:
            check(x is None, "after %s: a model although none is chosen", op)
            continue
        same((x.model, x.baseline), s.results[current][1:3], "after %s" % op)
        e, dr = want[current]["e"], want[current]["dr"]
        check(np.all(s.ppe.effective_dy == e) and len(s.ppe.effective_dy) == len(r), "after %s: uncertainties %s", op, s.ppe.effective_dy)
        rr, yy, ee, _ = (*s.ppe.resampledata(dr)[:2], s.ppe.resampledata(dr)[3], 0)
        check(ref.close(x.r_cluster, rr) and ref.close(x.y_cluster, yy) and ref.close(x.error_cluster, ee), "after %s: data of the model", op)
        chi = np.sum(((yy - np.sum([p.value(rr) for p in x.model], axis=0) - (0 if x.baseline is None else x.baseline.value(rr))) / ee) ** 2)
        check(ref.close(x.quality().chisq, chi, 1e-6), "after %s: chi-square", op)
    if os.path.exists(path):
        os.unlink(path)
    return nontrivial


@st.composite
def movies(draw):
    from props import C23

    c = draw(C23.selection())
    c["classes"] = draw(st.booleans())
    c["order"] = draw(st.sampled_from(["up", "down", "given"]))
    c["shown"] = draw(st.one_of(st.none(), st.integers(0, 8)))
    c["step"] = draw(st.sampled_from([None, None, False, True]))
    c["duration"] = draw(st.sampled_from([None, None, 0.0, 0.01, 2.5]))
    return c


@LAWS.law(movies, quick=150, thorough=800, rule="non-trivial: the best model changes with the uncertainty")
def probabilities(c, note):
    """Animations of the probabilities show those at each uncertainty and the best model there, at the pace asked for, and change no result."""
    import matplotlib.pyplot as plt

    from diffpy.srmise.multimodelselection import MultimodelSelection
    from props import C23

    p, results, r = C23.build(c)
    ms = MultimodelSelection()
    ms.setppe(p)
    ms.results = results
    dgs = c["dgs"] if c["order"] == "given" else sorted(c["dgs"], reverse=c["order"] == "down")
    if len(dgs) < 2:
        dgs = dgs + [dgs[0] * 2]
    quietly(ms.makeaics, dgs, c["testdr"] or c["dr"])
    ms.classify(r)
    if c["shown"] is not None:
        ms.setcurrent(c["shown"] % len(results))
    want = described(ms)
    tables = {d: ([float(v) for v in ms.aicprobs[d]], [float(v) for v in ms.classprobs[d]]) for d in ms.dgs}
    best = [ms.get_model(d) if c["classes"] else ms.get_model(d, cls=None) for d in dgs]
    at = list(range(len(ms.classes))) if c["classes"] else [q[0] for q in results]
    cls = [ms.get_class(d) for d in dgs]
    frames, keys, naps = [], [], []

    def frame():
        lines, rest = axes_of(plt.gcf())
        frames.append((ms.current, lines, rest, ms.ppe.extracted))

    def axes_of(fig):
        out = []
        for ax in fig.get_axes():
            out.append([(q.get_marker(), np.array(q.get_xdata(), dtype=float).ravel(), np.array(q.get_ydata(), dtype=float).ravel()) for q in ax.get_lines()])
        return out[0], out[-1]

    kw = {k: v for k, v in (("step", c["step"]), ("duration", c["duration"])) if v is not None}
    plt.close("all")
    try:
        with mock.patch.object(plt, "draw", frame), mock.patch("builtins.input", lambda *a: keys.append(len(frames))), mock.patch("time.sleep", naps.append):
            (ms.animate_classprobs if c["classes"] else ms.animate_probs)(**kw)
        d = session.diff(want, described(ms), "results", 0)
        check(d is None, "the animation changed the results: %s", d)
        now = {d: ([float(v) for v in ms.aicprobs[d]], [float(v) for v in ms.classprobs[d]]) for d in ms.dgs}
        check(now == tables, "the animation changed probabilities")
        x = ms.ppe.extracted
        same((x.model, x.baseline), ms.results[ms.current][1:3], "model after the animation")
        check(len(frames) == len(dgs) - 1, "%d frames after the first, %d uncertainties", len(frames), len(dgs))
        check(keys == (list(range(1, len(dgs))) if c["step"] else []), "keys asked for after frames %s", keys)
        if c["duration"]:
            check(len(naps) == len(frames) and abs(sum(naps) - c["duration"] * len(frames) / len(dgs)) < 1e-6, "pauses %s, duration %r", naps, c["duration"])
        else:
            check(sum(naps) == 0, "pauses %s", naps)
        for k, (current, lines, below, x) in enumerate(frames, 1):
            dg = dgs[k]
            probs = tables[dg][1 if c["classes"] else 0]
            check(ref.close(lines[0][2], probs, 1e-12, 1e-300), "probabilities shown %s, expected %s", lines[0][2], probs)
            check(ref.close(lines[0][1], at), "probabilities at %s, expected %s", lines[0][1], at)
            dots = [q for q in lines if q[0] == "o"]
            i = cls[k] if c["classes"] else best[k]
            check(len(dots) == 1 and ref.close([dots[0][1][0], dots[0][2][0]], [at[i], probs[i]], 1e-12, 1e-300), "dots %s, expected %s", dots, [at[i], probs[i]])
            if not c["classes"]:
                check(any(len(q[1]) == 2 and np.all(q[1] == dg) for q in lines), "no line at uncertainty %r", dg)
            j = k
            while c["classes"] and j > 0 and cls[j - 1] == cls[k]:  # the plot is renewed with the class only
                j -= 1
            check(current == best[j], "model %r shown at %r, expected %r", current, dg, best[j])
            i = best[j]
            q = ModelCluster(results[i][1].copy(), results[i][2].copy(), x.r_data, x.y_data, x.y_error, None, p.error_method, p.pf)
            w = [np.array(v, dtype=float) for v in q.plottable()[1::2]]
            if c["classes"]:
                res = q.plottable_residual()[1]
                w.append(np.min(q.plottable()[1::2]) - np.max(res) + res)
            curves = [q[2] for q in below]
            check(len(curves) == len(w) and all(ref.close(a, b, 1e-9, 1e-9) for a, b in zip(curves, w)), "the curves shown at %r are not of model %s", dg, i)
    finally:
        plt.close("all")
    return len(set(best)) > 1
