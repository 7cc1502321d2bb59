BUGS = []
def bug(id, prop, edits, needs, what, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, what=what, demo="import numpy as np\n" + demo))

bug("C15-edy-word", "C15", [("peakextraction.py", r'''        res = re.search(r"\bdy\b", start_data_info)
        if res:
            hasdy = True
        res = re.search(r"\bedy''', r'''        res = re.search(r"dy\b", start_data_info)
        if res:
            hasdy = True
        res = re.search(r"\bedy''')] if False else [("peakextraction.py", r'''        res = re.search(r"\bx\b", start_data_info)
        if res:
            hasx = True''', r'''        res = re.search(r"x\b", start_data_info)
        if res:
            hasx = True''')],
"a session without x but with dx" , "the column dx is taken for x too",
"""
from diffpy.srmise.peakextraction import PeakExtraction
p = PeakExtraction()
p.y = np.array([1.0, 2.0]); p.dx = np.array([0.1, 0.1])
q = PeakExtraction()
try:
    q.readstr(p.writestr())
    r = q.x
except Exception as e:
    r = repr(e)
assert r is None, r
""") if False else None

bug("C15-part-flags", "C15", [("modelparts.py", '''        lines.append("static_owner=%s" % repr(self.static_owner))
''', '''        lines.append("static_owner=%s" % repr(self.static_owner and self.removable))
''')],
"a saved peak which keeps its function and is not removable",
"a peak which is neither removable nor may change its function loses the latter when saved",
"""
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
g = Gaussian(0.7)
p = PeakExtraction()
x = np.arange(1, 5, 0.1)
p.setdata(x, x * 0 + 1)
p.setvars(pf=[g], cres=0.2, initial_peaks=Peaks([g.actualize([2.0, 0.3, 1.0], "pwa", removable=False, static_owner=True)]))
q = PeakExtraction()
q.readstr(p.writestr())
assert q.initial_peaks[0].static_owner
""")

bug("C15-base-order", "C15", [("basefunction.py", None, None)], "", "", "") if False else None

bug("C15-neg-cres", "C15", [("peakextraction.py", r'''        rx = {"f": r"[-+]?(\d+(\.\d*)?|\d*\.\d+)([eE][-+]?\d+)?"}
        regexp = r"\bcres''', r'''        rx = {"f": r"[-+]?(\d+(\.\d*)?|\d*\.\d+)([eE]\d+)?"}
        regexp = r"\bcres''')],
"a session saved with a very small clustering resolution",
"resolutions written with a negative exponent are forgotten",
"""
from diffpy.srmise.peakextraction import PeakExtraction
p = PeakExtraction()
x = np.arange(1, 5, 0.1)
p.setdata(x, x * 0 + 1)
p.setvars(cres=2e-05)
q = PeakExtraction()
q.readstr(p.writestr())
assert q.cres == 2e-05, q.cres
""")

bug("C15-slice-end", "C15", [("modelcluster.py", '''        lines.append("slice=%s" % repr(self.slice))
''', '''        lines.append("slice=slice(%s, %s)" % self.slice.indices(len(self.r_data) - 1)[:2])
''')],
"a saved result whose range ends with the last point",
"a model over the full data loses its last point when saved",
"""
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
g = Gaussian(0.7)
r = np.arange(2.0, 4.0, 0.1)
for s in (slice(0, 20), slice(3, 12)):
    m = ModelCluster(Peaks([g.actualize([3.0, .3, 1.0], "pwa")]), None, r, r * 0 + 1, r * 0 + 1, s, AIC, [g])
    n = ModelCluster.factory(m.writestr())
    assert n.size == m.size, (n.size, m.size)
""")

bug("C15-initial-functions", "C15", [("peakextraction.py", '''        allpf = list(set(allpf))
        allbf = list(set(allbf))
        safepf = BaseFunction.safefunctionlist(allpf)
        safebf = BaseFunction.safefunctionlist(allbf)

        # Indexed baseline''', '''        allpf = list({repr(f): f for f in allpf}.values())
        allbf = list(set(allbf))
        safepf = BaseFunction.safefunctionlist(allpf)
        safebf = BaseFunction.safefunctionlist(allbf)

        # Indexed baseline''')],
"two functions which print alike", "functions equal in description are merged, and those left out cannot be written", "assert 1") if False else None

bug("C16-cut-results", "C16", [("modelcluster.py", '''                if len(arrays) != len(lines):
                    emsg =''', '''                if len(arrays) < len(lines):
                    emsg =''')],
"a saved result in which a row lacks a number",
"rows of a saved model with too few numbers are accepted",
"""
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
g = Gaussian(0.7)
r = np.arange(2.0, 4.0, 0.1)
m = ModelCluster(Peaks([g.actualize([3.0, .3, 1.0], "pwa")]), None, r, r * 0 + 1, r * 0 + 1, None, AIC, [g])
t = m.writestr().rstrip().rsplit(" ", 1)[0]
from diffpy.srmise.srmiseerrors import SrMiseDataFormatError
try:
    ModelCluster.factory(t)
except SrMiseDataFormatError:
    pass
except Exception as e:
    raise AssertionError(repr(e))
else:
    raise AssertionError("accepted")
""")

bug("C16-not-cleared", "C16", [("peakextraction.py", '''        """Read metadata not defined by srmise class from string."""
        return
''', '''        """Read metadata not defined by srmise class from string."""
        return
''')], "", "", "") if False else None

bug("C16-meta-optional", "C16", [("pdfpeakextraction.py", '''            self.supersample = eval(res.groups()[0].strip())
        else:
            emsg = "metastr does not match required field 'supersample'"
            raise SrMiseDataFormatError(emsg)
''', '''            self.supersample = eval(res.groups()[0].strip())
        elif self.qmax:
            emsg = "metastr does not match required field 'supersample'"
            raise SrMiseDataFormatError(emsg)
''')],
"a session without cutoff which lacks the last field of its metadata",
"the missing field is accepted when qmax is 0",
"""
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.srmiseerrors import SrMiseDataFormatError
p = PDFPeakExtraction()
x = np.arange(1, 5, 0.1)
p.setdata(x, x * 0 + 1)
p.setvars(qmax=0.0)
t = "\\n".join(l for l in p.writestr().split("\\n") if not l.startswith("supersample"))
try:
    PDFPeakExtraction().readstr(t)
except SrMiseDataFormatError:
    pass
else:
    raise AssertionError("accepted")
""")

bug("C16-index-neg", "C16", [("basefunction.py", None, None)], "", "", "") if False else None

bug("C17-qsig", "C17", [("pdfdataset.py", r'''regexp = r"\b(?:qdamp|qsig) *= *(%(f)s)\b" % rx''', r'''regexp = r"\b(?:qdamp|qsig) *= *(%(f)s)\s" % rx''')],
"an item of the header followed by something else than a space",
"the damping is not found when a comma follows it",
"""
from diffpy.srmise.pdfdataset import PDFDataSet
d = PDFDataSet("a")
d.readStr("qdamp=0.05, qbroad=0.01\\n##### start data\\n1 2\\n")
assert d.qdamp == 0.05 and d.qbroad == 0.01, d.qdamp
""")

bug("C17-last-dr", "C17", [("pdfdataset.py", '''                if has_drobs:
                    v2 = float(v[2])
                    has_drobs = v2 > 0.0
                    self.drobs.append(v2)
''', '''                if has_drobs:
                    v2 = float(v[2])
                    has_drobs = v2 >= 0.0
                    self.drobs.append(v2)
''')],
"some uncertainties in r which are zero, others positive",
"uncertainties in r are kept although some are zero",
"""
from diffpy.srmise.pdfdataset import PDFDataSet
d = PDFDataSet("a")
d.readStr("##### start data\\n1 2 0.1 1\\n2 3 0 1\\n")
assert list(d.drobs) == [0, 0], d.drobs
""")

bug("C17-copy-meta", "C17", [("pdfdataset.py", "            setattr(other, a, copy.deepcopy(getattr(self, a)))", "            setattr(other, a, copy.copy(getattr(self, a)) or getattr(self, a))")],
"a copy of a data set without metadata, then metadata added to the copy",
"copies of data sets without metadata share them",
"""
from diffpy.srmise.pdfdataset import PDFDataSet
d = PDFDataSet("a")
d.readStr("##### start data\\n1 2\\n2 3\\n")
e = d.copy()
e.metadata["k"] = 1.0
assert d.metadata == {}
""")

bug("C17-neutron", "C17", [("pdfdataset.py", '''        if self.stype == "X":
            lines.append("stype=X  x-ray scattering")
        elif self.stype == "N":
            lines.append("stype=N  neutron scattering")
        # qmax
        if self.qmax == 0:
            qmax_line = "qmax=0   correction not applied"
''', '''        if self.stype == "X":
            lines.append("stype=X  x-ray scattering")
        elif self.stype == "N":
            lines.append("stype=N  neutron scattering")
        # qmax
        if int(self.qmax) == 0:
            qmax_line = "qmax=0   correction not applied"
''')],
"a data set with a cutoff below 1",
"cutoffs below 1 are written as 0",
"""
from diffpy.srmise.pdfdataset import PDFDataSet
d = PDFDataSet("a")
d.readStr("qmax=0.75\\n##### start data\\n1 2\\n2 3\\n")
e = PDFDataSet("b").readStr(d.writeStr())
assert e.qmax == 0.75, e.qmax
""")

bug("C18-shift-round", "C18", [("pdfpeakextraction.py", "    shift = orig_r[0] / dr\n", "    shift = orig_r[0] / dr if orig_r[0] > dr else np.round(orig_r[0] / dr)\n")],
"resampling of data starting at less than one interval (or negative r), not at a multiple of it",
"the data are shifted by part of an interval",
"""
from diffpy.srmise.pdfpeakextraction import resample
r = 0.03 + 0.1 * np.arange(20)
y = np.sin(r)
assert np.allclose(resample(r, y, r), y)
""")

bug("C18-scale-bound", "C18", [("pdfpeakextraction.py", "            return np.max([np.sqrt(dr_nyquist / dr), 1.0])", "            return np.max([np.sqrt(dr_nyquist / dr), 1.0]) if dr < dr_nyquist else np.sqrt(dr_nyquist / dr)")],
"uncertainties scaled, and data sampled more coarsely than necessary",
"the uncertainties are reduced below those given",
"""
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
p = PDFPeakExtraction()
x = np.arange(1, 5, 0.1)
p.setdata(x, np.sin(x))
p.setvars(qmax=20.0, nyquist=True, scale=True)
assert p.errorscale(0.4) == 1.0, p.errorscale(0.4)
""")

bug("C18-range-start", "C18", [("pdfpeakextraction.py", "        r = np.arange(max(self.x[0], self.rng[0]), min(self.x[-1], self.rng[1]), dr)\n", "        s = self.getrangeslice()\n        r = np.arange(self.x[s][0], self.x[s][-1], dr)\n")],
"resampling over a range which does not start at a point of the data",
"the range starts at the next point of the data and ends at the one before the end",
"""
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
p = PDFPeakExtraction()
x = np.arange(1, 5, 0.1)
p.setdata(x, np.sin(x))
p.setvars(qmax=20.0, rng=[1.55, 4.0])
assert p.resampledata(0.05)[0][0] == 1.55
""")

bug("C18-edy-interp", "C18", [("pdfpeakextraction.py", "            r_error = np.interp(r, self.x, self.dx)", "            r_error = self.errorscale(dr) * np.interp(r, self.x, self.dx)")],
"scaled uncertainties and data with uncertainties in r",
"the uncertainties in r are scaled too",
"""
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
p = PDFPeakExtraction()
x = np.arange(1, 5, 0.1)
p.setdata(x, np.sin(x), x * 0 + .01, x * 0 + 1)
p.setvars(qmax=10.0, nyquist=True, scale=True)
assert np.allclose(p.resampledata(0.05)[2], .01)
""")

bug("C19-scalar-int", "C19", [("peakextraction.py", "            self.effective_dy = self.effective_dy * np.ones(len(self.x))\n", "            self.effective_dy = np.full(len(self.x), self.effective_dy)\n            self.effective_dy = np.where(self.dy > 0, np.maximum(self.dy, self.effective_dy), self.effective_dy) if self.effective_dy.dtype == int else self.effective_dy\n")],
"an uncertainty given as a whole number for data with uncertainties of their own",
"a whole number does not replace larger uncertainties of the data",
"""
from diffpy.srmise.peakextraction import PeakExtraction
p = PeakExtraction()
x = np.arange(1, 5, 0.1)
p.setdata(x, np.sin(x), None, x * 0 + 5.0)
p.setvars(effective_dy=2)
assert np.all(np.asarray(p.effective_dy) == 2)
""")

bug("C19-nyquist-default", "C19", [("pdfpeakextraction.py", '''        if self.nyquist is None or "nyquist" in args:
            if self.qmax > 0:''', '''        if self.nyquist is None or "nyquist" in args or "qmax" in args:
            if self.qmax > 0:''')],
"qmax reset to its default after nyquist was set",
"completing qmax changes nyquist as well",
"""
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
p = PDFPeakExtraction()
x = np.arange(1, 5, 0.1)
p.setdata(x, np.sin(x))
p.setvars(qmax=10.0, nyquist=False)
p.defaultvars("qmax")
assert p.nyquist is False
""")

bug("C19-rng-zero", "C19", [("peakextraction.py", '''            if self.rng[0] is None:
                self.rng[0] = self.x[0]
''', '''            if not self.rng[0]:
                self.rng[0] = self.x[0]
''')],
"a range starting at zero, with data starting elsewhere",
"a range from zero on is taken for one whose start was not given",
"""
from diffpy.srmise.peakextraction import PeakExtraction
p = PeakExtraction()
x = np.arange(-1, 5, 0.1)
p.setdata(x, np.sin(x))
p.setvars(rng=[0.0, 3.0])
assert list(p.rng) == [0.0, 3.0], p.rng
""")

bug("C19-setvars-order", "C19", [("pdfpeakextraction.py", '''            if kwds["supersample"] < 1.0:''', '''            if kwds["supersample"] < 1.0 and self.nyquist is not False:''')],
"a supersampling below one set after Nyquist sampling was switched off",
"the invalid value is accepted",
"""
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
p = PDFPeakExtraction()
x = np.arange(1, 5, 0.1)
p.setdata(x, np.sin(x))
p.setvars(nyquist=False)
try:
    p.setvars(supersample=0.5)
except ValueError:
    pass
else:
    raise AssertionError("accepted")
""")

bug("C20-ripples-static", "C20", [("pdfpeakextraction.py", '''                except SrMiseStaticOwnerError:
                    pass
''', '''                except SrMiseStaticOwnerError:
                    break
''')],
"a cutoff and a starting peak which keeps its function, followed by others",
"peaks after one which keeps its function get no termination ripples",
"""
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.terminationripples import TerminationRipples
g = Gaussian(0.7)
x = np.arange(1, 8, 0.02)
mk = lambda **k: [g.actualize([q, .4, 5.0], "pwa", **k) for q in (2.5, 4.0, 5.5)]
y = Peaks(mk()).value(x)
p = PDFPeakExtraction()
p.setdata(x, y, None, x * 0 + 0.2)
p.setvars(pf=[g], cres=0.2, qmax=20.0, nyquist=False, initial_peaks=Peaks(mk(removable=False, static_owner=True)[:1]))
p.extract()
n = [isinstance(q.owner(), TerminationRipples) for q in p.extracted.model]
assert n == [False, True, True], n
""")

bug("C20-supersample-rng", "C20", [("pdfpeakextraction.py", '''                # provided PDF already sufficiently oversampled
                r1 = self.x[rngslice]
                y1 = self.y[rngslice]
                y_error1 = self.errorscale(dr_raw) * self.effective_dy[rngslice]
''', '''                # provided PDF already sufficiently oversampled
                r1 = self.x[rngslice]
                y1 = self.y[rngslice]
                y_error1 = self.errorscale(dr_raw) * self.effective_dy[: len(r1)]
''')],
"data sampled finely enough, a range not starting with the data, uncertainties which vary",
"the uncertainties used are those of the start of the data instead of the range",
"""
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
g = Gaussian(0.7)
x = np.arange(1, 8, 0.02)
y = Peaks([g.actualize([q, .4, 5.0], "pwa") for q in (2.5, 4.0, 5.5)]).value(x)
p = PDFPeakExtraction()
p.setdata(x, y)
e = 0.1 * x
p.setvars(pf=[g], cres=0.2, qmax=20.0, nyquist=False, rng=[3.0, 7.0], effective_dy=e)
p.extract()
s = (x >= 3.0) & (x <= 7.0)
assert np.allclose(p.extracted.error_cluster, e[s])
""")

bug("C20-cov-recursion", "C20", [("pdfpeakextraction.py", '''                    ext.fit(estimate=False)  # Clean up parameters after resampling.
''', '''                    ext.fit(estimate=False, fitbaseline=True)  # Clean up parameters after resampling.
''')], "", "", "") if False else None

bug("C21-estimate-baseline", "C21", [("peakextraction.py", '''            y1 = self.extracted.y_cluster - self.extracted.value()
            dy = self.extracted.error_cluster
''', '''            y1 = self.extracted.y_cluster - self.extracted.model.value(x1) - self.baseline.value(x1)
            dy = self.extracted.error_cluster
''')],
"a peak estimated after a fit which changed the baseline",
"the baseline given is taken away from the data instead of the fitted one",
"""
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
g = Gaussian(0.7)
x = np.arange(1, 8, 0.05)
mk = lambda **k: [g.actualize([q, .4, 5.0], "pwa", **k) for q in (2.5, 4.0, 5.5)]
y = Peaks(mk()[:2]).value(x) + 3.0
p = PeakExtraction()
p.setdata(x, y, None, x * 0 + 0.2)
p.setvars(pf=[g], cres=0.2, initial_peaks=Peaks(mk()[:2]), baseline=Polynomial(0).actualize([0.1]))
p.fit_single()
assert abs(p.extracted.baseline[0] - 3) < 0.1
q = p.estimate_peak(7.0, add=False)
assert q is None, q
""")

bug("C21-add-sort", "C21", [("peakextraction.py", '''            self.initial_peaks.extend(peaks)
            self.initial_peaks.sort(key="position")
''', '''            self.initial_peaks.extend(peaks)
            if len(peaks) == 1:
                self.initial_peaks.sort(key="position")
''')],
"several peaks added at once out of order",
"several peaks added by hand are not put in order",
"""
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
g = Gaussian(0.7)
x = np.arange(1, 8, 0.05)
p = PeakExtraction()
p.setdata(x, x * 0 + 1)
p.setvars(pf=[g], cres=0.2)
p.add_peaks(Peaks([g.actualize([q, .4, 5.0], "pwa") for q in (4.5, 3.0)]))
q = [float(v["position"]) for v in p.initial_peaks]
assert q == sorted(q), q
""")

bug("C21-fit-grid", "C21", [("pdfpeakextraction.py", '''        if self.qmax == 0 or not self.nyquist:
            r1 = self.x[rngslice]''', '''        if self.qmax == 0 or not self.nyquist or dr_nyquist / dr_raw < self.supersample:
            r1 = self.x[rngslice]''')],
"a fit with Nyquist sampling of data sampled less finely than the supersampling",
"the data are fitted as they are instead of Nyquist-sampled",
"""
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
g = Gaussian(0.7)
x = np.arange(1, 8, 0.05)
mk = lambda **k: [g.actualize([q, .4, 5.0], "pwa", **k) for q in (2.5, 4.0, 5.5)]
p = PDFPeakExtraction()
p.setdata(x, Peaks(mk()).value(x), None, x * 0 + 0.2)
p.setvars(pf=[g], cres=0.2, qmax=20.0, nyquist=True, initial_peaks=Peaks(mk()))
p.fit()
r = p.extracted.r_cluster
assert abs(r[1] - r[0] - np.pi / 20) < 1e-9, r[1] - r[0]
""")

