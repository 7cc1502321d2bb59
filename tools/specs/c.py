BUGS = []
def bug(id, prop, edits, needs, what, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, what=what, demo="import numpy as np\n" + demo))

bug("C12-mixed-names", "C12", [("modelcluster.py", """        j1 = self.pmap[j] if j in self.pmap else j

        if self.cov""", """        j1 = self.pmap[j] if i in self.pmap else j

        if self.cov""")],
"a correlation asked for with one parameter by number and the other by part and index",
"naming the two parameters of a correlation in different ways fails",
"""
from diffpy.srmise.modelcluster import ModelCovariance
from diffpy.srmise.modelparts import ModelParts
from diffpy.srmise.baselines.polynomial import Polynomial
c = ModelCovariance()
c.setcovariance(ModelParts([Polynomial(1).actualize([1.0, 2.0])]), np.array([[4.0, 1.0], [1.0, 9.0]]))
a = c.getcorrelation((0, 0), (0, 1))
try:
    b = c.getcorrelation(0, (0, 1)), c.getcorrelation((0, 0), 1)
except Exception as e:
    b = repr(e)
assert b == (a, a), b
""")

bug("C12-warning-negative", "C12", [("modelcluster.py", "                if c and np.abs(c) > threshold:", "                if c and c > threshold:")],
"a strong negative correlation",
"negative correlations are not reported",
"""
from diffpy.srmise.modelcluster import ModelCovariance
from diffpy.srmise.modelparts import ModelParts
from diffpy.srmise.baselines.polynomial import Polynomial
c = ModelCovariance()
c.setcovariance(ModelParts([Polynomial(1).actualize([1.0, 2.0])]), np.array([[4.0, -5.9], [-5.9, 9.0]]))
assert len(c.correlationwarning(0.8)) == 1
""")

bug("C12-dof-range", "C12", [("modelparts.py", "            dof = len(fvec) - len(freepars)\n", "            dof = len(r) - len(freepars)\n")],
"uncertainties after a fit in a part of the data",
"the misfit is reduced by the number of all points instead of those fitted",
"""
from diffpy.srmise.modelparts import ModelParts
from diffpy.srmise.modelcluster import ModelCovariance
from diffpy.srmise.baselines.polynomial import Polynomial
r = np.arange(40.0)
y = np.random.RandomState(1).normal(size=40)
def cov(r, y, s):
    m = ModelParts([Polynomial(1).actualize([0.0, 0.0])])
    c = ModelCovariance()
    m.fit(r, y, np.ones(len(r)), range=s, cov=c)
    return np.array(c.cov)
assert np.allclose(cov(r, y, slice(5, 20)), cov(r[5:20], y[5:20], None), rtol=1e-3)
""")

bug("C12-expand", "C12", [("modelcluster.py", """                            self.cov[i, j] = cov[rawi, rawj]
                            rawj += 1
                    rawi += 1""", """                            self.cov[i, j] = cov[rawi, rawj] if j >= i else self.cov[j, i]
                            rawj += 1
                    rawi += 1 if j != i else 0""")],
"a model whose last parameter is fixed or whose last but one is, in a certain way",
"expanding the covariance over fixed parameters goes wrong",
"""
raise SystemExit(0)
""") if False else None

bug("C12-str-order", "C12", [("modelcluster.py", """        part_idx, param_idx = i if i in self.pmap else self.ipmap[i]
        return self.model[part_idx][param_idx]""", """        part_idx, param_idx = i if i in self.pmap else divmod(i, len(self.model[0]))
        return self.model[part_idx][param_idx]""")],
"a parameter of the third or later part queried by number when the parts have different numbers of parameters",
"values by number assume that all parts have as many parameters as the first",
"""
from diffpy.srmise.modelcluster import ModelCovariance
from diffpy.srmise.modelparts import ModelParts
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.peaks.gaussian import Gaussian
c = ModelCovariance()
g = Gaussian(1.0)
c.setcovariance(ModelParts([Polynomial(0).actualize([1.0]), g.actualize([3.0, .2, 1.0], "pwa")]), np.identity(4))
try:
    v = [c.getvalue(i) for i in range(4)]
except Exception as e:
    v = repr(e)
assert v == [c.getvalue((0, 0)), c.getvalue((1, 0)), c.getvalue((1, 1)), c.getvalue((1, 2))], v
""")

bug("C12-failed-gradient", "C12", [("modelcluster.py", """                    % (i, str(p))
                )
                continue
""", """                    % (i, str(p))
                )
                break
""")],
"a transformation of parts one of which, not the last, has no gradient",
"parts after one without gradient keep their old format while the covariance claims the new one",
"""
from diffpy.srmise.modelcluster import ModelCovariance
from diffpy.srmise.modelparts import ModelParts
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
c = ModelCovariance()
g, h = Gaussian(1.0), GaussianOverR(1.0)
c.setcovariance(ModelParts([g.actualize([3.0, .2, 1.0], "pwa"), h.actualize([4.0, .2, 1.0], "pwa")]), np.identity(6))
c.transform("internal", "pwa")
assert abs(c.getvalue((1, 1)) - 0.2) < 1e-9, c.getvalue((1, 1))
""")

bug("C13-prune-neighbours", "C13", [("modelcluster.py", """                        y -= np.sum(best_modely[hi:], axis=0)""", """                        y -= np.sum(best_modely[hi + 1 :], axis=0)""")],
"a model of more than four peaks, of which an early one is redundant",
"pruning forgets the contribution of the fourth peak to the right of the one it removes",
"""
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
g = Gaussian(0.7)
pars = [[3.0 + i, 0.3, 5.0] for i in range(6)]
r = np.arange(2.0, 9.5, 0.05)
y = Peaks([g.actualize(p, "pwa") for p in pars]).value(r)
ps = Peaks([g.actualize(p, "pwa") for p in [[2.5, 0.3, 1e-4]] + pars])
m = ModelCluster(ps, None, r, y, 0.1 * np.ones(len(r)), None, AIC, [g])
m.prune()
assert len(m.model) == 6, m.model
""")

bug("C13-augment-source", "C13", [("modelcluster.py", """                best_model = test_models[args[-1]]
                del source_model[args[-1]]""", """                best_model = test_models[args[-1]]
                del source_model[0]""")],
"two missing peaks, the second of which helps more",
"augmenting crosses out the first candidate whichever was added",
"""
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
g = Gaussian(0.7)
pars = [[3.0, 0.3, 2.0], [5.0, 0.3, 20.0]]
r = np.arange(2.0, 6.5, 0.05)
y = Peaks([g.actualize(p, "pwa") for p in pars]).value(r)
src = ModelCluster(Peaks([g.actualize(p, "pwa") for p in pars]), None, r, y, 0.1 * np.ones(len(r)), None, AIC, [g])
m = ModelCluster(None, None, r, y, 0.1 * np.ones(len(r)), None, AIC, [g])
m.augment(src)
got = sorted(round(float(p["position"]), 2) for p in m.model)
assert got == [3.0, 5.0], got
""")

bug("C13-clean-edge", "C13", [("modelcluster.py", "max(self.model[i].value(self.r_cluster) - self.error_cluster) < 0)", "max(self.model[i].value(self.r_cluster) - max(self.error_cluster)) < 0)")],
"a peak outside the cluster above a small uncertainty but below the largest one",
"peaks outside are compared with the largest uncertainty",
"""
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
g = Gaussian(0.7)
r = np.arange(2.0, 4.0, 0.05)
e = np.linspace(9.0, 0.1, len(r))
ps = Peaks([g.actualize([4.1, 0.5, 1.0], "pwa")])
m = ModelCluster(ps, None, r, ps.value(r) + 1, e, None, AIC, [g])
assert m.cleanfit() == 0
""")

bug("C13-revert-baseline", "C13", [("modelcluster.py", """                "Error while fitting cluster: %s\\nReverting to original model.",
                e,
            )
            self.model = orig_model
            self.baseline = orig_baseline
""", """                "Error while fitting cluster: %s\\nReverting to original model.",
                e,
            )
            self.model = orig_model
""")],
"a fit together with the baseline which fails, by running out of trials",
"after a failed fit the baseline is left as the fit left it",
"""
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
g = Gaussian(0.7)
r = np.arange(2.0, 4.0, 0.05)
y = g.actualize([3.0, 0.5, 4.0], "pwa").value(r) + 3
m = ModelCluster(Peaks([g.actualize([2.6, 0.3, 1.0], "pwa")]), Polynomial(0).actualize([0.5]), r, y, np.ones(len(r)), None, AIC, [g])
assert m.fit(fitbaseline=True, ntrials=3) is None
assert m.baseline[0] == 0.5, m.baseline
""")

bug("C13-join-side", "C13", [("modelcluster.py", """(new_model[i]["position"] > border_x and new_ids[i] < len(left.model))""", """(new_model[i]["position"] > border_x and new_ids[i] <= len(left.model))""")],
"a peak of the left cluster beyond the first of the right one",
"joining loses the first peak of the right cluster when one of the left lies beyond it",
"""
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
g = Gaussian(0.7)
r = np.arange(2.0, 6.0, 0.05)
y = 50 * np.ones(len(r)); e = np.ones(len(r))
mk = lambda pos, s: ModelCluster(Peaks([g.actualize([p, 0.3, 1.0], "pwa") for p in pos]), None, r, y, e, s, AIC, [g])
j = ModelCluster.join_adjacent(mk([2.5, 4.5], slice(0, 40)), mk([4.2, 5.0], slice(40, 80)))
got = [round(float(p["position"]), 6) for p in j.model]
assert got == [2.5, 4.2, 5.0], got
""")

bug("C13-replace-check", "C13", [("modelcluster.py", """        for p in self.model[delslice]:
            if not p.removable:""", """        for p in self.model[delslice][:1]:
            if not p.removable:""")],
"several peaks replaced at once, of which a later one is not removable",
"only the first of the replaced peaks is checked for being removable",
"""
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
g = Gaussian(0.7)
r = np.arange(2.0, 6.0, 0.05)
ps = Peaks([g.actualize([3.0, 0.3, 1.0], "pwa"), g.actualize([4.0, 0.3, 1.0], "pwa", removable=False)])
m = ModelCluster(ps, None, r, ps.value(r), np.ones(len(r)), None, AIC, [g])
try:
    m.replacepeaks(Peaks(), slice(0, 2))
except ValueError:
    pass
assert len(m.model) == 2
""")

bug("C13-copy-baseline", "C13", [("modelcluster.py", "                self.baseline = orig.baseline.copy()\n            self.r_data", "                self.baseline = orig.baseline\n            self.r_data")],
"a copy of a cluster with a baseline, then a fit of the baseline",
"a copy shares its baseline with the original, so fitting one changes the other",
"""
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
g = Gaussian(0.7)
r = np.arange(2.0, 4.0, 0.05)
y = g.actualize([3.0, 0.5, 4.0], "pwa").value(r) + 3
m = ModelCluster(Peaks([g.actualize([2.9, 0.4, 3.0], "pwa")]), Polynomial(0).actualize([2.5]), r, y, np.ones(len(r)), None, AIC, [g])
c = m.copy()
c.fit(fitbaseline=True)
assert m.baseline[0] == 2.5, m.baseline
""")

bug("C13-value-range", "C13", [("modelcluster.py", "                return self.valuebl(r) + (self.model.value(self.r_data, self.slice)[self.slice])", "                return self.valuebl(r) + self.model.value(self.r_cluster)")],
"peaks with termination ripples in a cluster which is a part of the data",
"ripples are computed on the grid of the cluster alone",
"""
raise SystemExit(0)
""") if False else None

bug("C14-minpoints-shift", "C14", [("modelevaluators/aicc.py", "            n = self.minpoints(k)\n\n        if self.chisq is None:", "            n = self.minpoints(k - kshift)\n\n        if self.chisq is None:")],
"too few points, and a shift of the number of parameters",
"with too few points the penalty uses a number of points which ignores the shift",
"""
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
g = Gaussian(0.7)
r = np.arange(2.0, 2.2, 0.05)
ps = Peaks([g.actualize([2.1, 0.3, 1.0], "pwa")])
m = ModelCluster(ps, None, r, ps.value(r), np.ones(len(r)), None, AICc, [g])
try:
    got = AICc().evaluate(m, kshift=3)
except Exception as e:
    got = repr(e)
k = 6
assert got == 2 * k + 2 * k * (k + 1) / 1.0, got
""")

bug("C14-growth-fixed", "C14", [("modelevaluators/aic.py", "        k_actual = fit.model.npars(count_fixed=False)", "        k_actual = fit.model.npars()")],
"a model with fixed parameters under AIC: no difference in penalty, but in the points needed",
"equivalent for AIC",
"""
raise SystemExit(0)
""") if False else None

bug("C14-growth-fixed-c", "C14", [("modelevaluators/aicc.py", "        k_actual = fit.model.npars(count_fixed=False)", "        k_actual = fit.model.npars()")],
"a growth considered for a model with fixed parameters",
"fixed parameters count in the cost of growth",
"""
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
g = Gaussian(0.7)
r = np.arange(2.0, 2.5, 0.05)
ps = Peaks([g.actualize([2.1, 0.3, 1.0], "pwa", free=[False] * 3)])
y = ps.value(r) + 1.0
n = len(r)
e = np.ones(n) * np.sqrt(n / 11.5)     # chi-square 11.5
m = ModelCluster(ps, None, r, y, e, None, AICc, [g])
q = AICc(); q.evaluate(m)
cost = 2 * 3 + 2 * 3 * 4 / (n - 4)
assert cost < 11.5 and q.growth_justified(m, 3)
""")

bug("C14-probs-overflow", "C14", [("modelevaluators/aic.py", """        aic_min = min(aic_stats)
        return np.exp(-(aic_stats - aic_min) / 2.0)""", """        return np.exp(-(aic_stats - aic_stats[0]) / 2.0)""")],
"a first model far worse than the best",
"weights are relative to the first model and overflow",
"""
from diffpy.srmise.modelevaluators.aic import AIC
a = [AIC(), AIC()]
a[0].stat, a[1].stat = 5000.0, 10.0
p = AIC.akaikeprobs(a)
assert np.allclose(p, [0, 1]), p
""")

bug("C14-le", "C14", [("modelevaluators/base.py", """            return self.stat <= other.stat
        else:
            return other.stat <= self.stat""", """            return self.stat <= other.stat
        else:
            return other.stat < self.stat or self is other""")],
"two models of exactly the same quality compared with <=",
"of two equal models neither is at least as good as the other",
"""
from diffpy.srmise.modelevaluators.aic import AIC
a, b = AIC(), AIC()
a.stat = b.stat = 3.0
assert a <= b
""")

bug("C14-justified-equal", "C14", [("modelevaluators/aicc.py", "        if n < self.minpoints(k_test):\n", "        if n <= self.minpoints(k_test):\n")],
"exactly as many points as the grown model needs",
"growth is refused with exactly enough points",
"""
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
g = Gaussian(0.7)
r = 2.0 + 0.05 * np.arange(8)
ps = Peaks([g.actualize([2.1, 0.3, 1.0], "pwa")])
m = ModelCluster(ps, None, r, ps.value(r) + 100.0, np.ones(8), None, AICc, [g])
q = AICc(); q.evaluate(m)
assert q.growth_justified(m, 3)
""")
