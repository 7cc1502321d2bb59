BUGS = []
def bug(id, prop, edits, needs, what, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, what=what, demo="import numpy as np\n" + demo))

PPE = '''
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.baselines.polynomial import Polynomial
g = Gaussian(0.7)
r = np.arange(1, 8, 0.05)
def ppe(base=(0.0,), poly=0):
    p = PDFPeakExtraction()
    p.setdata(r, 3 + np.sin(3 * r))
    p.setvars(quiet=True, pf=[g], qmax=0.0, cres=0.1, error_method=AIC, baseline=Polynomial(poly).actualize(list(base)))
    p.defaultvars()
    return p
mk = lambda *ps, **k: Peaks([g.actualize(list(q), "pwa", **k) for q in ps])
'''
SEL = PPE + '''
import contextlib, io
from diffpy.srmise.multimodelselection import MultimodelSelection
def sel(models, dgs, bases=None):
    p = ppe()
    ms = MultimodelSelection()
    ms.setppe(p)
    f = Polynomial(0)
    ms.results = [[1.0, m, f.actualize([bases[i] if bases else 0.0]), 0.05] for i, m in enumerate(models)]
    with contextlib.redirect_stdout(io.StringIO()):
        ms.makeaics(dgs, 0.05)
    ms.classify(r)
    return ms
'''

bug("C22-labels", "C22", [("pdfpeakextraction.py", '''                lines.append("# " + " ".join(str(parlbl[i]) for i in paridx))
''', '''                lines.append("# " + " ".join(str(parlbl[i]) for i in paridx[::-1]))
''')],
"a baseline of more than one parameter", "the labels of the baseline's parameters come in the wrong order",
PPE + '''
from diffpy.srmise.baselines.nanospherical import NanoSpherical
p = ppe()
b = NanoSpherical().actualize([0.1, 12.0])
p.extracted = ModelCluster(mk((2.5, .4, 5)), b, r, p.y, p.effective_dy, None, AIC, [g])
t = p.writepwastr("").splitlines()
i = [k for k, l in enumerate(t) if l.startswith("0.1 12.0 #")][0]
assert t[i - 1] == "# scale radius", t[i - 1]
''')

bug("C22-nested-base", "C22", [("pdfpeakextraction.py", '''            if pf.base is not None:
                base = "(base=%s)" % safepf.index(pf.base)
''', '''            if pf.base is not None:
                base = "(base=%s)" % (i - 1)
''')],
"two functions with ripples on one base", "the base of the second function is given as the function before it",
PPE + '''
from diffpy.srmise.peaks.terminationripples import TerminationRipples
import re
t1, t2 = TerminationRipples(g, 20.0), TerminationRipples(g, 25.0)
p = ppe()
p.pf = [g, t1, t2]
p.extracted = ModelCluster(mk((2.5, .4, 5)), None, r, p.y, p.effective_dy, None, AIC, [g])
s = p.writepwastr("")
fs = dict(re.findall(r"^(\\d+) diffpy.srmise.peaks.(\\w+)", s, re.M))
for b in re.findall(r"base=(\\d+)", s):
    assert fs[b] == "gaussian", s
''')

bug("C22-extracted-baseline", "C22", [("pdfpeakextraction.py", '''            if self.extracted.baseline is not None:
                allbf.append(self.extracted.baseline.owner())
        allpf''', '''            if self.extracted.baseline is not None and self.baseline is None:
                allbf.append(self.extracted.baseline.owner())
        allpf''')],
"a result whose baseline function is another than that set", "no summary can be written",
PPE + '''
from diffpy.srmise.baselines.nanospherical import NanoSpherical
p = ppe()
b = NanoSpherical().actualize([0.1, 12.0])
p.extracted = ModelCluster(mk((2.5, .4, 5)), b, r, p.y, p.effective_dy, None, AIC, [g])
assert "nanospherical" in p.writepwastr("")
''')

bug("C23-rank-in-class", "C23", [("multimodelselection.py", '''                bestinclass.append([cls[b] for b in best_idx])
''', '''                bestinclass.append([cls[b] for b in sorted(range(len(temp)), key=best_idx.__getitem__)])
''')],
"a class of three or more models", "ranks and models are mixed up within a class when their order is a cycle",
SEL + '''
mods = [mk((2.5, .4, a)) for a in (3.00, 3.02, 3.01)]
for order in ([0, 1, 2], [1, 2, 0], [2, 0, 1]):
    ms = sel([mods[i] for i in order], [1.0])
    a = [x.stat for x in ms.aics[1.0]]
    for c in ms.sortedclasses[1.0]:
        s = [a[i] for i in c]
        assert s == sorted(s, reverse=True), (a, c)
''')

bug("C23-class-zero", "C23", [("multimodelselection.py", '''        if cls is None:
            return self.sortedprobs[dG][-1 - morder]
''', '''        if not cls:
            return self.sortedprobs[dG][-1 - morder]
''')],
"the first class is asked for and is not that of the best model",
"the best model of the first class is taken from all models",
SEL + '''
ms = sel([mk((2.5, .4, 9.0)), mk((2.5, .4, 0.1), (4.5, .4, .1))], [1.0])
a = [x.stat for x in ms.aics[1.0]]
assert len(ms.classes) == 2
assert ms.get_model(1.0, cls=0) == 0 and ms.get_model(1.0, cls=1) == 1, a
''')

bug("C23-drifting-exemplar", "C23", [("multimodelselection.py", '''                classes_idx[i] = c
                break
''', '''                classes_idx[i] = c
                epsqval[c] = psqval
                ebsqval[c] = bsqval
                break
'''), ("multimodelselection.py", '''                # that's all the checks, add to current class
                added_to_class = True
                classes[c].append(i)
''', '''                # that's all the checks, add to current class
                classes[c].append(i)
                added_to_class = True
''')],
"models which change slowly over many uncertainties",
"models are compared with the latest of a class instead of the first",
SEL + '''
ms = sel([mk((2.5, .4, a)) for a in (3.0, 3.05, 3.10, 3.15, 3.2)], [1.0])
assert len(ms.classes) > 1, ms.classes
''')

bug("C23-baseline-squared", "C23", [("multimodelselection.py", '''                if basediff > tolerance * np.sum(ebsqval[c]) or basediff > tolerance * np.sum(bsqval):
''', '''                if basediff > tolerance * np.sum(ebsqval[c]):
''')],
"a baseline slightly smaller than that of the exemplar",
"baselines are compared with the exemplar only",
SEL + '''
pk = lambda: mk((2.5, .4, 3.0))
ms = sel([pk(), pk()], [1.0], [1.0, (1 - 0.049) ** 0.5])
assert len(ms.classes) == 2, ms.classes
''')

bug("C23-prob-of-model", "C23", [("multimodelselection.py", '''        if "cls" in kwds and kwds["cls"] is None:
            return self.aicprobs[dG][idx]
''', '''        if "cls" in kwds and (kwds["cls"] is None or len(self.classes[kwds["cls"]]) == 1):
            return self.aicprobs[dG][idx]
''')],
"a class with a single model is asked for explicitly, others have several",
"the probability of the model among all models is given instead of that of its class",
SEL + '''
ms = sel([mk((2.5, .4, 3.0)), mk((2.5, .4, 3.0)), mk((2.5, .4, 3.0), (4.5, .1, 0.001))], [1.0])
assert len(ms.classes) == 2, ms.classes
assert abs(ms.get_prob(1.0, cls=1) - ms.classprobs[1.0][1]) < 1e-12, ms.classprobs
''')

bug("C24-animate-none", "C24", [("peakstability.py", '''        self.setcurrent(oldcurrent)

    def run''', '''        self.setcurrent(oldcurrent or 0)

    def run''')],
"results are animated while none is shown", "the first result is shown afterwards",
PPE + '''
from diffpy.srmise.peakstability import PeakStability
s = PeakStability()
s.setppe(ppe())
s.results = [[1.0, mk((2.5, .4, 3.0)), None, 0.05], [2.0, mk((2.5, .4, 3.0)), None, 0.05]]
s.animate()
assert s.current is None and s.ppe.extracted is None
''')

bug("C24-free-flags", "C24", [("peakstability.py", '''                        "free": r[2].free,
''', '''                        "free": results2[0][2]["free"] if results2 and results2[0][2] else r[2].free,
''')],
"results whose baselines differ in what is fixed", "all baselines get the flags of the first when loaded",
PPE + '''
from diffpy.srmise.peakstability import PeakStability
import os, tempfile
s = PeakStability()
s.setppe(ppe())
f = Polynomial(0)
s.results = [[1.0, mk((2.5, .4, 3.0)), f.actualize([1.0], free=[fr]), 0.05] for fr in (True, False)]
with tempfile.TemporaryDirectory() as d:
    s.save(os.path.join(d, "a"))
    t = PeakStability()
    t.load(os.path.join(d, "a"))
assert [bool(x[2].free[0]) for x in t.results] == [True, False]
''')

bug("C24-sampling", "C24", [("peakstability.py", '''            (r, y, dr, dy) = self.ppe.resampledata(result[3])
''', '''            (r, y, dr, dy) = self.ppe.resampledata(min(result[3], self.results[0][3]))
''')],
"results sampled differently", "a result is shown with the sampling of the first",
PPE + '''
from diffpy.srmise.peakstability import PeakStability
s = PeakStability()
s.setppe(ppe())
s.results = [[1.0, mk((2.5, .4, 3.0)), None, 0.05], [2.0, mk((2.5, .4, 3.0)), None, 0.2]]
s.setcurrent(1)
x = s.ppe.extracted.r_cluster
assert abs(x[1] - x[0] - 0.2) < 1e-9, x
''')

CLI = '''
import contextlib, io, os, sys, tempfile
from diffpy.srmise.applications.extract import main
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
x = np.arange(1, 3, 0.05)
def cli(*opts, prepare=None, y=None):
    old, cwd = sys.argv, os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            with open("a.gr", "w") as f:
                f.write("#### start data\\n" + "".join("%r %r\\n" % (float(u), float(v)) for u, v in zip(x, np.sin(x) if y is None else y)))
            if prepare:
                prepare()
            sys.argv = ["srmise", "--no-extract", "--save", "o.srmise", *opts]
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                main()
            p = PDFPeakExtraction()
            p.read("o.srmise")
            return p
        finally:
            sys.argv = old
            os.chdir(cwd)
'''

bug("C25-all-fixed", "C25", [("applications/extract.py", '''    return mp.actualize(pars, "internal", free=free)
''', '''    return mp.actualize(pars, "internal", free=free if any(free) else None)
''')],
"a baseline all of whose parameters are fixed", "they are free",
CLI + '''
p = cli("a.gr", "--bpoly1", "0.5c", "1c")
assert not any(p.baseline.free), p.baseline.free
''')

bug("C25-negative-data", "C25", [("applications/extract.py", '''            pdict["effective_dy"] = options.dg * ext.y.max() * np.ones(len(ext.x))
''', '''            pdict["effective_dy"] = options.dg * np.abs(ext.y).max() * np.ones(len(ext.x))
''')],
"data deeper below zero than above", "the fraction is of the largest magnitude",
CLI + '''
p = cli("a.gr", "--dg-mode", "max-fraction", "--dg", "0.5", y=np.where(x < 2, -4.0, 2.0))
assert np.allclose(p.effective_dy, 1.0), p.effective_dy
''')

bug("C25-bsrmise-initial", "C25", [("applications/extract.py", '''        options.baseline = blext.extracted.baseline
''', '''        options.baseline = blext.baseline or blext.extracted.baseline
''')],
"a baseline from a session whose fit changed it", "the baseline before the fit is used",
CLI + '''
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.baselines.polynomial import Polynomial
def prepare():
    p = PDFPeakExtraction()
    p.loadpdf("a.gr")
    f = Polynomial(0)
    p.setvars(quiet=True, qmax=0.0, baseline=f.actualize([1.0]))
    p.defaultvars()
    p.extracted = ModelCluster(None, f.actualize([2.5]), p.x, p.y, p.effective_dy, None, p.error_method, p.pf)
    p.write("b.srmise")
p = cli("a.gr", "--bsrmise", "b.srmise", prepare=prepare)
assert p.baseline.pars[0] == 2.5, p.baseline
''')

TR = '''
from diffpy.srmise import srmiselog
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
g = Gaussian(0.7)
r = np.arange(1, 6, 0.1)
def mcl(a, b, *ps):
    return ModelCluster(Peaks([g.actualize(list(q), "pwa") for q in ps]), None, r, np.ones(len(r)), np.ones(len(r)), slice(a, b), AIC, [g])
'''
bug("C26-refilter", "C26", [("srmiselog.py", '''        self.__filter = compile(" and ".join(["(%s)" % f for f in filter]), "<string>", "eval")
''', '''        self.__filter = compile(" and ".join(["%s" % f for f in filter]), "<string>", "eval")
''')],
"two conditions, one of them with or", "conditions are mixed up",
TR + '''
t = srmiselog.TracePeaks(filter=["True or False", "False"], store=True)
t.emit(mcl(0, 20, (1.5, .3, 2)))
assert not t.trace
''')
bug("C26-counter-reset", "C26", [("srmiselog.py", '''        if self.call == 0:
            self.reset_trace()
''', '''        if self.call == 0 and self.counter:
            self.reset_trace()
''')],
"an extraction which left the recursion unbalanced and made no trace", "the recursion is not started afresh",
TR + '''
t = srmiselog.TracePeaks(filter=["False"], store=True)
t.pushr()
t.pushc()
assert t.recursion == 0, t.recursion
''')
bug("C26-file-level", "C26", [("srmiselog.py", '''    level = LEVELS.get(level, level)
    ch.setLevel(level)
    if level < logger.getEffectiveLevel():
        logger.setLevel(level)
''', '''    level = LEVELS.get(level, level)
    ch.setLevel(level)
    logger.setLevel(level)
''')],
"a log file with a lower level than the console", "raising the level of the console raises that of the file",
TR + '''
import logging, os, tempfile
with tempfile.TemporaryDirectory() as d:
    srmiselog.addfilelog(os.path.join(d, "l"), "debug")
    srmiselog.setlevel("error")
    srmiselog.logger.info("hello")
    srmiselog.fh.close()
    assert "hello" in open(os.path.join(d, "l")).read()
''')

MP = PPE + '''
import matplotlib.pyplot as plt
from diffpy.srmise.applications import plot as app
'''
bug("C27-mask-scale", "C27", [("applications/plot.py", '''        gr_res = np.ma.masked_outside(gr_res, -mask_residual, mask_residual)
''', '''        gr_res = np.ma.masked_outside(gr_res, -mask_residual * scale, mask_residual * scale)
''')],
"a mask of the residual and a scale", "the limit of the mask is scaled",
MP + '''
p = ppe()
fd = app.makeplot(p, scale=10.0, mask_residual=5.0)
l = [q for q in fd["data"].get_lines() if len(q.get_xdata()) == len(p.extracted.r_cluster if p.extracted else p.x)][-1]
m = np.ma.getmaskarray(np.ma.masked_invalid(np.ma.array(l.get_ydata(orig=True), dtype=float)))
assert m.any()
''')
bug("C27-annotation", "C27", [("applications/plot.py", '''        dg = np.mean(ext.error_cluster) * scale
''', '''        dg = np.mean(ext.y_error) * scale
''')],
"a model of a part of the data with other uncertainties elsewhere", "the mean uncertainty of all data is shown",
MP + '''
p = ppe()
e = np.where(r < 4, 1.0, 9.0)
p.extracted = ModelCluster(mk((2.5, .4, 5)), None, r, p.y, e, slice(0, 20), AIC, [g])
fd = app.makeplot(p)
t = [x.get_text() for a in fd["fig"].get_axes() for x in a.texts]
assert any("1.000000" in x for x in t), t
''')
bug("C27-edge-position", "C27", [("applications/plot.py", '''    ep = [p for p in ep if p >= pmin and p <= pmax]
''', '''    ep = [p for p in ep if p >= pmin and p < pmax]
''')],
"positions compared within limits, a peak right at the upper one", "the peak at the limit is missing",
MP + '''
p = ppe()
p.extracted = ModelCluster(mk((2.5, .4, 5), (4.0, .4, 5)), None, r, p.y, p.effective_dy, None, AIC, [g])
app.comparepositions(p.extracted, None, pmin=2.5, pmax=4.0)
assert len(plt.gca().get_lines()[0].get_xdata()) == 6
''')
bug("C27-baseline-fill", "C27", [("applications/plot.py", '''    gr_fit_ind = [gr_fit_baseline + np.array(p.value(rfine)) * scale for p in ext.model]
''', '''    gr_fit_ind = [(gr_fit_baseline + np.array(p.value(rfine))) * scale for p in ext.model]
''')],
"a scale and a baseline", "the baseline below peaks is scaled twice",
MP + '''
p = ppe((2.0,))
p.extracted = ModelCluster(mk((2.5, .4, 5)), p.baseline, r, p.y, p.effective_dy, None, AIC, [g])
fd = app.makeplot(p, scale=3.0)
v = fd["data"].collections[0].get_paths()[0].vertices[:, 1]
assert v.max() < 3 * (2 + 5 / .4), v.max()
''')
bug("C27-dgmax-scale", "C27", [("applications/plot.py", '''        if dg * scale < dgmin or dg * scale > dgmax:
''', '''        if dg * scale < dgmin or dg > dgmax:
''')],
"limits of the uncertainties shown and a scale", "the upper limit is not scaled",
MP + '''
from diffpy.srmise.peakstability import PeakStability
p = ppe()
s = PeakStability(); s.setppe(p)
s.results = [[e, mk((2.5, .4, 5)), None, 0.05] for e in (1.0, 2.0, 3.0)]
app.dgseries(s, scale=2.0, dgmax=2.5)
assert len(plt.gca().get_lines()[0].get_xdata()) == 2
''')
