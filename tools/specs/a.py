BUGS = []
def bug(id, prop, edits, needs, what, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, what=what, demo="import numpy as np\n" + demo))

bug("C01-nearest-by-index", "C01", [("dataclusters.py", """        if distances[0] < np.abs(distances[1]):
            return [near_idx - 1, distances[0]]""", """        left, right = self.clusters[near_idx - 1, 1], self.clusters[near_idx, 0]
        if idx - left < right - idx:
            return [near_idx - 1, distances[0]]""")],
"a non-uniform grid, and a point between two clusters nearer in index to the one farther away",
"the nearest cluster is chosen by number of points instead of distance",
"""
from diffpy.srmise.dataclusters import DataClusters
x = np.array([0.0, 0.1, 0.2, 1.1, 1.2])
y = np.array([5.0, 1.0, 2.0, 1.5, 4.0])
d = DataClusters(x, y, 0.25)
next(d)   # 4: a cluster of its own
next(d)   # index 2: 0.2 from the first cluster, 1.0 from the last
got = [list(map(int, c)) for c in d.clusters]
assert got == [[0, 2], [4, 4]] , got
""")

bug("C01-res-strict", "C01", [("dataclusters.py", "if np.abs(nearest_cluster[1]) <= self.res:", "if np.abs(nearest_cluster[1]) < self.res:")],
"a point exactly as far from the nearest cluster as the resolution",
"a point at a distance equal to the resolution founds a new cluster",
"""
from diffpy.srmise.dataclusters import DataClusters
x = np.arange(4) * 0.5
d = DataClusters(x, np.array([4.0, 3.0, 2.0, 1.0]), 0.5)
d.makeclusters()
assert len(d.clusters) == 1, d.clusters
""")

bug("C02-adjacent-skip", "C02", [("dataclusters.py", "            left_idx = right_idx + 1  # set for next possible left_idx", "            left_idx = right_idx + 2  # set for next possible left_idx")],
"two runs of adjacent clusters, the second starting right after a gap",
"the first cluster of a run which directly follows another run is lost",
"""
from diffpy.srmise.dataclusters import DataClusters
x = np.arange(6.0)
y = np.array([5.0, 6.0, 0.0, 4.0, 3.0, 1.0])
d = DataClusters(x, y, 0.5)
for _ in range(3):
    next(d)
assert len(d.clusters) == 4, d.clusters
got = [list(map(int, a)) for a in d.find_adjacent_clusters()]
assert got == [[0, 1], [2, 3]], got
""")

bug("C02-full-last", "C02", [("dataclusters.py", "            high = len(self.data_order) - 1\n", "            high = self.clusters[cluster_idx, 1]\n")],
"the last cluster, not yet grown to the end of the data",
"the last cluster is reported as full though points right of it remain",
"""
from diffpy.srmise.dataclusters import DataClusters
d = DataClusters(np.arange(4.0), np.array([4.0, 3.0, 2.0, 1.0]), 2.0)
next(d)
assert not d.cluster_is_full(0)
""")

bug("C03-sigma-cap", "C03", [("peaks/gaussian.py", """            fwhm = temp[1] * self.sigma2fwhm
            if fwhm > self.maxwidth:""", """            fwhm = temp[1] * self.sigma2fwhm
            if temp[1] > self.maxwidth:""")],
"a peak given by sigma, with sigma below and full width above the maximum",
"a width above the maximum gives a peak of NaN instead of being refused",
"""
from diffpy.srmise.peaks.gaussian import Gaussian
f = Gaussian(0.7)
try:
    p = f.actualize([3.0, 0.4, 1.0], "mu_sigma_area")
except Exception:
    pass
else:
    raise SystemExit("accepted: %s" % p.pars)
""")

bug("C03-overr-max", "C03", [("peaks/gaussianoverr.py", "            rmax = 0.5 * (tpars[0] + np.sqrt(tpars[0] ** 2 - 4 * tpars[1] ** 2))", "            rmax = tpars[0] - tpars[1] ** 2 / tpars[0]")] if False else [("peaks/gaussianoverr.py", "        rmax = 0.5 * (tpars[0] + np.sqrt(tpars[0] ** 2 - 4 * tpars[1] ** 2))", "        rmax = tpars[0] - tpars[1] ** 2 / tpars[0]")],
"a peak wide in comparison with its position",
"the maximum of a Gaussian over r is only approximately placed",
"""
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
f = GaussianOverR(3.0)
p = f.actualize([1.5, 1.2, 1.0], "pwa")
r = np.arange(0.9, 2.0, 0.0001)
assert abs(f.max(p.pars)[0] - r[np.argmax(p.value(r))]) < 1e-3, f.max(p.pars)
""")

bug("C04-default-input", "C04", [("basefunction.py", """            The new sequence of parameters with out_format.
        \"\"\"
        # Map unspecified formats to specific formats defined in default_formats
        if in_format is None:
            in_format = self.default_formats["default_input"]
        if out_format is None:
            out_format = self.default_formats["default_output"]

        # Map generic formats to specific formats defined in default_formats
        if in_format == "default_input":
            in_format = self.default_formats["default_input"]
        elif in_format == "default_output":
            in_format = self.default_formats["default_output"]""", """            The new sequence of parameters with out_format.
        \"\"\"
        # Map unspecified formats to specific formats defined in default_formats
        if in_format is None:
            in_format = self.default_formats["default_input"]
        if out_format is None:
            out_format = self.default_formats["default_output"]

        # Map generic formats to specific formats defined in default_formats
        if in_format in ("default_input", "default_output"):
            in_format = self.default_formats["default_input"]""")],
"the generic name of the default output format given as input format",
"parameters in the default output format are taken for internal ones",
"""
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
f = GaussianOverR(0.7)
a = f.transform_parameters([3.0, 0.3, 2.0], "default_output", "internal")
b = f.transform_parameters([3.0, 0.3, 2.0], "pwa", "internal")
assert np.allclose(a, b), (a, b)
""")

bug("C04-aliased", "C04", [("baselines/nanospherical.py", "        temp = np.array(pars)\n", "        temp = np.asarray(pars)\n")],
"a nanospherical baseline with a negative parameter held in an array by the caller",
"converting changes the parameters given",
"""
from diffpy.srmise.baselines.nanospherical import NanoSpherical
f = NanoSpherical()
a = np.array([-1.0, 10.0])
f.transform_parameters(a, "internal", "internal")
assert a[0] == -1.0, a
""")

bug("C05-area-sign", "C05", [("peaks/gaussianoverr.py", """            if pars[2] >= 0:
                jacobian[2] = exp_p
            else:
                jacobian[2] = -exp_p
""", """            jacobian[2] = exp_p
""")],
"a negative internal area, as fits try out",
"the derivative in area has the wrong sign for negative areas",
"""
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
f = GaussianOverR(0.7)
r = np.arange(2, 4, 0.1)
p = f.actualize([3.0, 0.1, 2.0], "internal")
p.pars = np.array([3.0, 0.1, -2.0])
h = 1e-5
v = []
for s in (-h, h):
    p.pars = np.array([3.0, 0.1, -2.0 + s])
    v.append(p.value(r))
p.pars = np.array([3.0, 0.1, -2.0])
assert np.allclose(p.jacobian(r)[2], (v[1] - v[0]) / (2 * h), atol=1e-5)
""")

bug("C05-residual-range", "C05", [("modelparts.py", "            return jac[:, range] / y_error[range]\n", "            return jac[:, range] / np.mean(y_error[range])\n")],
"uncertainties which differ from point to point",
"the Jacobian of the residual is weighted by the mean uncertainty",
"""
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.base import Peaks
f = Gaussian(0.7)
m = Peaks([f.actualize([3.0, 0.1, 2.0], "internal")])
r = np.arange(2, 4, 0.1)
e = np.linspace(0.5, 2, len(r))
x = np.array([3.0, 0.1, 2.0])
h = 1e-5
j = m.residual_jacobian(x, r, 0 * r, e)
d = np.array([0, 0, h])
n = (m.residual(x + d, r, 0 * r, e) - m.residual(x - d, r, 0 * r, e)) / (2 * h)
assert np.allclose(j[2], n, atol=1e-5)
""")

bug("C06-fixed-up", "C06", [("peaks/base.py", "        if np.any((self.pars != adj_pars) & ~self.free):", "        if np.any((self.pars - adj_pars > 1e-10) & ~self.free):")],
"a peak with a fixed width or area, scaled up",
"scaling changes a fixed parameter when it grows",
"""
from diffpy.srmise.peaks.gaussian import Gaussian
f = Gaussian(0.7)
p = f.actualize([3.0, 0.2, 1.0], "pwa", free=[True, True, False])
p.scale_at(3.2, 2.0)
assert p.pars[2] == 1.0, p.pars
""")

bug("C06-match-second", "C06", [("peaks/base.py", "            if not all_scaled and fixed_height < y and fixed_height < height:", "            if not any_scaled and fixed_height < y and fixed_height < height:")],
"several peaks, some of them fixed",
"peaks which can be scaled do not make up for those which cannot",
"""
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.base import Peaks
f = Gaussian(0.7)
m = Peaks([f.actualize([2.8, 0.2, 1.0], "pwa", free=[False] * 3), f.actualize([3.3, 0.3, 1.0], "pwa")])
y = m.value(3.05) * 1.2
assert m.match_at(3.05, y)
assert abs(m.value(3.05) - y) < 1e-6 * y, (m.value(3.05), y)
""")

bug("C07-zeros", "C07", [("peaks/gaussian.py", "        usable_idx = [i for i in range(len(y)) if y[i] > 0]", "        usable_idx = [i for i in range(len(y)) if y[i] >= 0]")],
"data with zeros",
"points of zero height count for the three needed and give widths of zero",
"""
from diffpy.srmise.peaks.gaussian import Gaussian
f = Gaussian(0.7)
r = np.arange(5.0)
try:
    f.estimate_parameters(r, np.array([0.0, 1.0, 2.0, 0.0, 0.0]))
except Exception:
    pass
else:
    raise SystemExit("two positive points suffice")
""")

False and bug("C08-nano-edge", "C08", [("baselines/nanospherical.py", """        high = r.searchsorted(2.0 * np.abs(pars[1]), side="left")""", """        high = r.searchsorted(2.0 * np.abs(pars[1]), side="left") + 1""")],
"data which go on beyond the particle, a range within",
"the first point beyond the particle is not zero",
"""
from diffpy.srmise.baselines.nanospherical import NanoSpherical
f = NanoSpherical()
p = f.actualize([1.0, 2.05])
v = p.value(np.arange(0.0, 8.0, 1.0))
assert np.all(v[5:] == 0), v
""")

False and bug("C07-slope", "C07", [("baselines/polynomial.py", "                cut = np.max([len(y) / 10, 1])", "                cut = np.max([len(y) // 10 - 1, 1])")] if False else [("baselines/polynomial.py", "                slope = la.lstsq(a, y[cut_idx], rcond=-1)[0][0]\n", "                slope = np.min(y[cut_idx] / a[:, 0])\n")],
"a linear baseline below features and noise, or data containing r=0",
"the slope is that of the lowest point only (NaN with the origin)",
"""
from diffpy.srmise.baselines.polynomial import Polynomial
f = Polynomial(1)
r = np.arange(0.0, 10.0, 0.05)
y = 0.5 * r + 3 * np.exp(-((r - 6) ** 2))
e = f.estimate_parameters(r, y)
assert np.all(np.isfinite(e)), e
assert abs(e[0] - 0.5) < 0.05, e
""")

bug("C09-one-freq", "C09", [("peaks/terminationripples.py", "        hiidx = padlen + 1 - lowidx\n", "        hiidx = padlen - lowidx\n")],
"a component at the cutoff frequency itself",
"one of the two components at the first frequency above the cutoff passes",
"""
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.terminationripples import TerminationRipples
f = TerminationRipples(Gaussian(0.7), 20.0)
n, d = 256, 0.02
dq = 2 * np.pi / ((n - 1) * d)
k = int(np.ceil(20.0 / dq))
s = np.cos(2 * np.pi * k * np.arange(n) / n)
assert np.max(np.abs(f.cut_freq(s, d))) < 1e-9
""")

bug("C09-segment-range", "C09", [("peaks/terminationripples.py", """            value = self.cut_freq(value, dr_segmented)
""", """            value = self.cut_freq(value, dr)
""")],
"a grid coarser than the supersampling",
"with coarse grids the cutoff is taken for the wrong spacing",
"""
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.terminationripples import TerminationRipples
f = TerminationRipples(Gaussian(0.7), 20.0)
p = f.actualize([5.0, 0.2, 1.0], "pwa")
a = p.value(np.arange(2.0, 8.0, 0.15))
b = p.value(np.arange(2.0, 8.0, 0.01))[::15]
assert np.allclose(a[5:-5], b[5:len(a) - 5], atol=0.02), np.max(np.abs(a[5:-5] - b[5:len(a)-5]))
""")

bug("C10-getitem-neg", "C10", [("modelparts.py", "        return type(self).__call__([p.copy() for p in self])", "        return type(self).__call__([p.copy() if np.any(p.free) else p for p in self])")],
"a model with an entirely fixed peak, copied and changed",
"a copy shares peaks without free parameters with the original",
"""
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.base import Peaks
f = Gaussian(0.7)
m = Peaks([f.actualize([3.0, 0.2, 1.0], "pwa", free=[False] * 3)])
c = m.copy()
c[0].pars[0] = 5.0
assert m[0].pars[0] == 3.0
""")

bug("C12-kw-transform", "C12", [("modelcluster.py", "                parts = range(len(self.model) - 1)\n", "                parts = range(len(self.model))\n")],
"transforming only the peaks of a covariance whose last part has the format too",
"the last part is transformed though only the peaks were asked for",
"""
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.modelcluster import ModelCovariance
from diffpy.srmise.peaks.base import Peaks
f = GaussianOverR(0.7)
m = Peaks([f.actualize([3.0, 0.2, 1.0], "pwa"), f.actualize([4.0, 0.3, 1.0], "pwa")])
c = ModelCovariance()
c.setcovariance(m, np.identity(6))
c.transform("internal", "pwa", parts="peaks")
assert np.allclose(c.model[1].pars, m[1].pars), c.model[1].pars
""")

bug("C12-fixed-rows", "C12", [("modelcluster.py", "                            self.cov[i, j] = cov[rawi, rawj]\n                            rawj += 1\n                    rawi += 1", "                            self.cov[i, j] = cov[rawi, rawj]\n                        rawj += bool(free[j]) or j > i\n                    rawi += 1")] if False else [("modelcluster.py", "        if tempcov.shape[0] != model.npars(True) and tempcov.shape[0] != model.npars(False):", "        if tempcov.shape[0] > model.npars(True):")],
"a covariance matrix of a size which fits neither all nor the free parameters",
"a covariance matrix of the wrong size is accepted",
"""
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.modelcluster import ModelCovariance
from diffpy.srmise.peaks.base import Peaks
f = GaussianOverR(0.7)
m = Peaks([f.actualize([3.0, 0.2, 1.0], "pwa"), f.actualize([4.0, 0.3, 1.0], "pwa", free=[False, True, True])])
c = ModelCovariance()
try:
    c.setcovariance(m, np.identity(4))
except (ValueError, IndexError) as e:
    assert isinstance(e, ValueError), repr(e)
else:
    raise SystemExit("accepted")
""")

bug("C13-join-border", "C13", [("modelcluster.py", "        peak_funcs = list(set(m1.peak_funcs) | set(m2.peak_funcs))  # \"Union\"", "        peak_funcs = list(set(left.peak_funcs) or set(right.peak_funcs))  # \"Union\"")],
"joined clusters with different peak functions",
"the joined cluster knows the peak functions of the left cluster only",
"""
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
f, g = Gaussian(0.7), GaussianOverR(0.7)
r = np.arange(1.0, 5.0, 0.1)
y, e = np.sin(r), np.ones(len(r))
a = ModelCluster(None, None, r, y, e, slice(0, 20), AIC, [f])
b = ModelCluster(None, None, r, y, e, slice(20, 40), AIC, [g])
m = ModelCluster.join_adjacent(a, b)
assert set(m.peak_funcs) == {f, g}
""")

bug("C13-expand-left", "C13", [("modelcluster.py", "                left_slice = slice(self.slice.start, old_slice.start)\n", "                left_slice = slice(self.slice.start + 1, old_slice.start + 1)\n")],
"a cluster not worth fitting which grows left by a single high point",
"the leftmost point gained does not count when deciding whether a cluster is ever fit",
"""
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
f = Gaussian(0.7)
r = np.arange(1.0, 3.0, 0.1)
y, e = 0.1 * np.ones(len(r)), np.ones(len(r))
y[4] = 5.0
a = ModelCluster(None, None, r, y, e, slice(5, 12), AIC, [f])
assert a.never_fit
a.change_slice(slice(4, 12))
assert not a.never_fit
""")
