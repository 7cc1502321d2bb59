"""Selection among several models: Akaike probabilities, classes of similar models, and the best of them."""

import contextlib
import io
import os

import numpy as np
from hypothesis import strategies as st

from diffpy.srmise.baselines.nanospherical import NanoSpherical
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.multimodelselection import MultimodelSelection
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peaks.base import Peaks
from harness import gen, mc, ref
from harness.core import LawSet, check

LAWS = LawSet(
    "C23",
    assumptions=[
        "models of one class differ by at most 0.4% in area and in the baseline, models of different classes by at least a peak, 50% in area, or the baseline",
    ],
)

WHERE = [2.6, 3.9, 5.1]


@st.composite
def group(draw):
    n = draw(st.integers(0, 3))
    return {
        "n": n,
        "scale": draw(st.sampled_from([1.0, 1.6, 2.7])) if n else 1.0,
        "base": draw(st.sampled_from(["none", "line1", "line2", "nano"])),
    }


@st.composite
def selection(draw):
    groups = draw(st.lists(group(), min_size=draw(st.sampled_from([1, 2, 3])), max_size=5, unique_by=lambda g: (g["n"], g["scale"], g["base"])))
    models = draw(
        st.lists(
            st.fixed_dictionaries(
                {
                    "g": st.integers(0, len(groups) - 1),
                    "off": st.sampled_from([0, 0.004, -0.004, 0.002]),
                    "fix": st.integers(0, 3),
                    "bfree": st.booleans(),
                    "e": gen.floats(0.01, 2),
                }
            ),
            min_size=draw(st.sampled_from([1, 3, 5])),
            max_size=9,
        )
    )
    return {
        "kind": draw(ref.KINDS),
        "groups": groups,
        "models": models,
        "dr": draw(st.sampled_from([0.05, 0.1])),
        "testdr": draw(st.sampled_from([None, 0.05, 0.13, 0.2])),
        "crop": draw(st.one_of(st.none(), gen.floats(0.05, 0.9))),
        "weak": draw(st.sampled_from([1.0, 0.3, 0.1, 0.05, 0.02])),
        "noise": draw(gen.floats(0, 2)),
        "true": draw(st.integers(0, len(groups) - 1)),
        "eval": draw(st.sampled_from(["AIC", "AICc"])),
        "dgs": draw(st.lists(st.one_of(gen.floats(0.02, 20), gen.floats(0.5, 4)), min_size=1, max_size=6, unique=True)),
        "as": draw(st.sampled_from(["list", "array"])),
        "tol": draw(st.sampled_from([None, 0.05, 0.03, 0.2, 0.0])),
        "asked": draw(st.lists(gen.floats(0.01, 25), max_size=4)),
        "subset": draw(st.lists(st.booleans(), min_size=6, max_size=6)),
        "again": draw(st.booleans()),
        "name": draw(st.sampled_from(["aics.dat", "a b.pickle"])),
    }


def parts(c, g, off, pf, m=None):
    g = c["groups"][g]
    k = 1 + off
    free = [True] * 3 if m is None else [i >= m["fix"] for i in range(3)]
    peaks = Peaks([pf.actualize([x, 0.4, 8.0 * g["scale"] * k], "pwa", free=list(free)) for x in WHERE[: g["n"]]])
    bfree = True if m is None else m["bfree"]
    if g["base"] == "none":
        b = Polynomial(-1).actualize([])
    elif g["base"] == "nano":
        b = NanoSpherical().actualize([0.5 * k, 9.0], free=[bfree] * 2)
    else:
        b = Polynomial(1).actualize([(0.2 if g["base"] == "line1" else 0.45) * k, 0.0], free=[bfree] * 2)
    return peaks, b


def quietly(f, *args, **kwds):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kwds)


def build(c):
    pf = ref.make_pf(c["kind"], 0.7)
    r = np.arange(1.5, 6.6, c["dr"])
    peaks, b = parts(c, c["true"], 0, pf)
    y = np.sum([p.value(r) * (c["weak"] if i == len(peaks) - 1 else 1) for i, p in enumerate(peaks)], axis=0) + b.value(r) + c["noise"] * np.sin(17 * r + np.arange(len(r)) ** 2)
    p = PDFPeakExtraction()
    p.setdata(r, y)
    kw = {} if c["crop"] is None else {"rng": [r[0] + c["crop"], r[-1] - c["crop"]]}
    p.setvars(quiet=True, pf=[pf], error_method=mc.evaluator(c["eval"]), effective_dy=np.ones(len(r)), qmax=0.0, **kw)
    results = []
    for m in c["models"]:
        peaks, b = parts(c, m["g"], m["off"], pf, m)
        results.append([m["e"], peaks, b, c["dr"]])
    return p, results, r


def snapshot(results):
    return [[e, [(list(p.pars), list(p.free)) for p in m], list(b.pars), list(b.free), dr] for e, m, b, dr in results]


def nth(f, n, want, what):
    """f(0), f(1), ... are all of range(n) or the given indices, in decreasing order of want[index]."""
    got = [int(f(k)) for k in range(n)]
    check(len(set(got)) == n, "%s: %s", what, got)
    v = [want[i] for i in got]
    ok = all(a >= b - 1e-9 * max(abs(a), abs(b)) - 1e-300 for a, b in zip(v, v[1:]))
    check(ok, "%s: %s with %s is not the order from best to worst", what, got, v)
    return got


@LAWS.law(selection, quick=350, thorough=4000, rule="non-trivial: >= 2 classes and a class with >= 2 models")
def select(c, note):
    """Probabilities follow Akaike's formulas at every uncertainty, classes hold the models which agree, and all queries agree with these."""
    p, results, rdata = build(c)
    ms = MultimodelSelection()
    ms.setppe(p)
    ms.results = results
    before = snapshot(results)
    dr = c["testdr"] or c["dr"]
    dgs = np.array(c["dgs"]) if c["as"] == "array" else list(c["dgs"])
    tol = {} if c["tol"] is None else {"tolerance": c["tol"]}
    if c["again"]:
        # an earlier use leaves no trace
        quietly(ms.makeaics, [0.3, 0.9], c["dr"])
        ms.classify(rdata, 0.5)
    path = os.path.abspath(c["name"])
    quietly(ms.makeaics, dgs, dr, path)
    r, y, _, _ = p.resampledata(dr)
    n = len(r)
    resid = []
    for e, m, b, _ in results:
        v = np.sum([q.value(r) for q in m], axis=0) + b.value(r)
        resid.append(float(np.sum((y - v) ** 2)))
    k = [sum(bool(f) for q in m for f in q.free) for e, m, b, _ in results]

    other = MultimodelSelection()
    other.setppe(p)
    other.results = results
    other.loadaics(path)
    os.unlink(path)

    # classes known by construction
    classes, keys = [], {}
    for i, m in enumerate(c["models"]):
        g = c["groups"][m["g"]]
        key = m["g"] if c["tol"] != 0 else (m["g"], m["off"] if g["n"] or g["base"] != "none" else 0)
        if key not in keys:
            keys[key] = len(classes)
            classes.append([])
        classes[keys[key]].append(i)
    cls_of = {i: j for j, cl in enumerate(classes) for i in cl}

    for ms in (ms, other):
        want = sorted(c["dgs"]) if ms is other else list(c["dgs"])
        check([float(d) for d in ms.dgs] == want, "uncertainties %s, expected %s", list(ms.dgs), want)
        ms.classify(rdata, **tol)
        check([list(cl) for cl in ms.classes] == classes, "classes %s, expected %s", ms.classes, classes)
        check({i: ms.classes_idx[i] for i in range(len(results))} == cls_of, "class of each model %s", ms.classes_idx)
        check(ms.class_tolerance == (0.05 if c["tol"] is None else c["tol"]), "tolerance %r", ms.class_tolerance)
        prob, cprob, cname, mname = {}, {}, {}, {}
        for dg in c["dgs"]:
            stat = [resid[i] / dg**2 + mc.penalty(c["eval"], k[i], n) for i in range(len(results))]
            got = [a.stat for a in ms.aics[dg]]
            check(ref.close(got, stat, 1e-9), "criterion at %r: %s, expected %s", dg, got, stat)
            w = np.exp(-0.5 * (np.array(stat) - min(stat)))
            prob[dg] = w / np.sum(w)
            check(ref.close(ms.aicprobs[dg], prob[dg], 1e-6, 1e-12), "probabilities at %r: %s, expected %s", dg, ms.aicprobs[dg], prob[dg])
            best = [min(stat[i] for i in cl) for cl in classes]
            w = np.exp(-0.5 * (np.array(best) - min(best)))
            cprob[dg] = w / np.sum(w)
            check(ref.close(ms.classprobs[dg], cprob[dg], 1e-6, 1e-12), "probabilities of classes at %r: %s, expected %s", dg, ms.classprobs[dg], cprob[dg])
            # orders; get() agrees with each query
            tie = ms.aicprobs[dg]
            nth(lambda j: ms.get_model(dg, cls=None, morder=j), len(results), tie, "models at %r" % dg)
            order = nth(lambda j: ms.get_class(dg, corder=j), len(classes), ms.classprobs[dg], "classes at %r" % dg)
            neg = [-s for s in got]
            for ci, cl in enumerate(classes):
                inner = nth(lambda j: ms.get_model(dg, cls=ci, morder=j), len(cl), neg, "models of class %d at %r" % (ci, dg))
                check(set(inner) == set(cl), "models %s of class %d: %s", inner, ci, cl)
                rank = order.index(ci)
                for j, m in enumerate(inner):
                    for kw in ({"cls": ci, "morder": j}, {"corder": rank, "morder": j}):
                        check(ms.get_model(dg, **kw) == m, "get_model(%r, %s)", dg, kw)
                        vals = [ms.get_aic(dg, **kw), ms.get_prob(dg, **kw), ms.get_nfree(dg, **kw)]
                        nf = k[m] + sum(bool(f) for f in results[m][2].free)
                        wanted = [got[m], ms.classprobs[dg][ci], nf]
                        check(vals == wanted, "aic, prob, nfree %s, expected %s (%s)", vals, wanted, kw)
                        t = ms.get(dg, "model", "aic", "prob", "nfree", "dG", "dg", **kw)
                        check(t == (m, *vals, dg, dg), "get: %s, expected %s", t, (m, *vals, dg, dg))
                        if "corder" in kw:
                            check(ms.get(dg, "class", **kw) == (ci,), "get class %s", kw)
            m = ms.get_model(dg, cls=None)
            kw = {"cls": None}
            check(ms.get(dg, "prob", "aic", **kw) == (ms.aicprobs[dg][m], got[m]), "get without classes")
            check(ms.maxprobmodel_bymodel(dg) == m, "maxprobmodel_bymodel")
            cname[dg], mname[dg] = order[0], int(ms.get_model(dg))
            check(ms.maxprobmodel_byclass(dg) == mname[dg], "maxprobmodel_byclass")
            check(ms.get_model(dg) == ms.get_model(dg, corder=0, morder=0), "the best of the best is the default")
        # sets of best
        sub = [d for d, s in zip(c["dgs"], c["subset"]) if s]
        for some in (None, sub, np.array(sub)):
            ds = [float(d) for d in ms.dgs] if some is None else sub
            kw = {} if some is None else {"dgs": some}
            check([int(i) for i in ms.bestclasses(**kw)] == sorted({cname[d] for d in ds}), "bestclasses(%s)", some)
            check([int(i) for i in ms.bestmodels(**kw)] == sorted({mname[d] for d in ds}), "bestmodels(%s)", some)
            for ci in range(len(classes)):
                check(list(ms.classbestdgs(ci, **kw)) == [d for d in ds if cname[d] == ci], "classbestdgs(%d, %s)", ci, some)
            for i in range(len(results)):
                check(list(ms.modelbestdgs(i, **kw)) == [d for d in ds if mname[d] == i], "modelbestdgs(%d, %s)", i, some)
        for i in range(len(results)):
            for f, q in ((ms.maxprobdG_byclass, {d: ms.classprobs[d][cls_of[i]] for d in c["dgs"]}), (ms.maxprobdG_bymodel, {d: ms.aicprobs[d][i] for d in c["dgs"]})):
                d = float(f(i))
                check(d in q and q[d] == max(q.values()), "model %d is most probable at %r, not %r", i, max(q, key=q.get), d)
        for v in c["asked"]:
            d = float(ms.dg_key(v))
            check(d in c["dgs"] and abs(d - v) <= min(abs(e - v) for e in c["dgs"]) * (1 + 1e-12), "nearest to %r: %r", v, d)
            ms.get_model(ms.dg_key(v))
    check(snapshot(results) == before, "the models were changed")
    if len(c["dgs"]) > 1 and len(set(mname.values())) > 1:
        note("best model depends on the uncertainty")
    note("%d classes" % len(classes))
    return len(classes) > 1 and max(len(cl) for cl in classes) > 1


@st.composite
def alike(draw):
    """Models of like shape which differ a little in area and baseline."""
    n = draw(st.integers(1, 3))
    step = draw(st.sampled_from([0.01, 0.02, 0.05, 0.1]))
    lvl = st.integers(0, 6)
    return {
        "kind": draw(ref.KINDS),
        "models": draw(
            st.lists(
                st.fixed_dictionaries(
                    {
                        "levels": st.one_of(lvl.map(lambda v: [v] * n), st.lists(lvl, min_size=n, max_size=n)),
                        "drop": st.sampled_from([0, 0, 0, 0, 1]),
                        "base": st.one_of(st.just(0), lvl),
                        "type": st.sampled_from(["line", "line", "line", "nano", "flat"]),
                    }
                ),
                min_size=2,
                max_size=8,
            )
        ),
        "step": step,
        "tol": draw(st.sampled_from([None, 0.03, 0.1, 0.25, 0.5])),
        "times": draw(st.integers(1, 2)),
    }


@LAWS.law(alike, quick=350, thorough=4000, rule="non-trivial: >= 2 classes and a class with >= 2 models")
def similar(c, note):
    """A model belongs to the first class whose first model has as many peaks, and each peak and the baseline within the tolerance."""
    pf = ref.make_pf(c["kind"], 0.7)
    r = np.arange(1.5, 6.6, 0.05)
    ms = MultimodelSelection()
    ms.setppe(PDFPeakExtraction())
    desc = []
    for m in c["models"]:
        f = [1 + c["step"] * v for v in m["levels"]]
        f = f[: max(len(f) - m["drop"], 0)]
        g = 1 + c["step"] * m["base"]
        peaks = Peaks([pf.actualize([x, 0.4, 8.0 * v], "pwa") for x, v in zip(WHERE, f)])
        if m["type"] == "nano":
            b = NanoSpherical().actualize([0.5 * g, 9.0])
        elif m["type"] == "flat":
            b = Polynomial(0).actualize([0.5 * g])
        else:
            b = Polynomial(1).actualize([0.4 * g, 0.0])
        ms.results.append([1.0, peaks, b, 0.05])
        # squares of the values: all in proportion to those of the undisturbed part
        desc.append(([v * v for v in f], b.npars(), float(np.sum(b.value(r) ** 2))))
    before = snapshot(ms.results)
    tol = 0.05 if c["tol"] is None else c["tol"]

    def agrees(a, b):
        """Whether the models agree, None if too close to call."""
        if len(a[0]) != len(b[0]) or a[1] != b[1]:
            return False
        sure = True
        for u, v in list(zip(a[0], b[0])) + [(a[2], b[2])]:
            d, t = abs(u - v), tol * min(u, v)
            if abs(d - t) < 1e-6 * max(u, v):
                sure = None
            elif d > t:
                return False
        return sure

    classes = []
    for i, d in enumerate(desc):
        for cl in classes:
            a = agrees(desc[cl[0]], d)
            if a is None:
                note("too close")
                return False
            if a:
                cl.append(i)
                break
        else:
            classes.append([i])
    for _ in range(c["times"]):
        ms.classify(r, **({} if c["tol"] is None else {"tolerance": c["tol"]}))
        check([list(cl) for cl in ms.classes] == classes, "classes %s, expected %s", ms.classes, classes)
        want = {i: j for j, cl in enumerate(classes) for i in cl}
        check({i: ms.classes_idx[i] for i in want} == want, "classes of models %s", ms.classes_idx)
    check(snapshot(ms.results) == before, "the models were changed")
    return len(classes) > 1 and max(len(cl) for cl in classes) > 1
