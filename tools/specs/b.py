BUGS = []
def bug(id, prop, edits, needs, what, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, what=what, demo="import numpy as np\n" + demo))

bug("C07-edge-right", "C07", [("peaks/gaussianoverr.py", """            if use_y[-1] < max_y:
""", """            if use_y[-1] < max_y and use_r[-1] > guesspars[0] + 2 * (use_r[1] - use_r[0]):
""")],
"a Gaussian over r estimated from few points on the right of its maximum",
"the width on the right is taken from the mean extent instead of the last point",
"""
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
pf = GaussianOverR(2.0)
r = np.array([9.8, 9.9, 10.0, 10.1])
y = np.exp(-0.5 * ((r - 9.98) / 0.1) ** 2)
e = pf.transform_parameters(pf.estimate_parameters(r, y), "internal", "mu_sigma_area")
sl = np.sqrt(-0.5 * (r[0] - e[0]) ** 2 / np.log(y[0] / y.max()))
sr = np.sqrt(-0.5 * (r[-1] - e[0]) ** 2 / np.log(y[-1] / y.max()))
assert abs(e[1] - (sl + sr) / 2) < 1e-9, (e, sl, sr)
""")

bug("C07-flat", "C07", [("peaks/gaussian.py", "            guesspars[0] = (use_r[0] + use_r[-1]) / 2\n", "            guesspars[0] = (r[0] + r[-1]) / 2\n")],
"all positive points of one height, and points which are not positive at one end",
"the centre of a flat feature is that of the whole range instead of the positive points",
"""
from diffpy.srmise.peaks.gaussian import Gaussian
pf = Gaussian(2.0)
r = np.arange(1.0, 7.0, 0.5)
y = np.where(r < 3, 1.0, -1.0)
e = pf.estimate_parameters(r, y)
assert 1.0 <= e[0] <= 2.5, e
""")

bug("C08-smoothing", "C08", [("baselines/fromsequence.py", "spi.InterpolatedUnivariateSpline(x, y)", "spi.UnivariateSpline(x, y)")],
"a table of points which is not a smooth curve",
"the tabulated baseline smooths instead of passing through its points",
"""
from diffpy.srmise.baselines.fromsequence import FromSequence
x = np.arange(30.0)
y = np.array([(-1.0) ** i * 2 for i in range(30)])
f = FromSequence(x, y)
assert np.allclose(f.actualize([]).value(x), y)
""")

bug("C08-nano-abs", "C08", [("baselines/nanospherical.py", """            if r <= 0.0 or r >= 2.0 * np.abs(pars[1]):
                return 0.0
            else:
                return self._valueraw2""", """            if r <= 0.0 or r >= 2.0 * pars[1]:
                return 0.0
            else:
                return self._valueraw2""")],
"a negative radius, evaluated at a single point",
"with a negative radius the baseline is zero at single points while on grids it is not",
"""
from diffpy.srmise.baselines.nanospherical import NanoSpherical
f = NanoSpherical()
p = f.actualize([1.0, 5.0])
p.pars[:] = [1.0, -5.0]
assert np.allclose(p.value(3.0), p.value(np.array([3.0]))[0])
""")

bug("C08-comment", "C08", [("baselines/fromsequence.py", """        res = re.search(rb"^[^#]", datastring, re.M)""", """        res = re.search(rb"^[^#\\s]", datastring)""")],
"a table in a file beginning with comments",
"comments before the table are not skipped",
"""
import tempfile, os
from diffpy.srmise.baselines.fromsequence import FromSequence
d = tempfile.mkdtemp()
fn = os.path.join(d, "t.dat")
with open(fn, "w") as f:
    f.write("# r  y\\n# more\\n" + "".join("%r %r\\n" % (float(i), float(i * i)) for i in range(9)))
try:
    f = FromSequence(fn)
    assert np.allclose(f.actualize([]).value(np.arange(9.0)), np.arange(9.0) ** 2)
finally:
    import shutil; shutil.rmtree(d)
""")

bug("C08-degree-text", "C08", [("baselines/arbitrary.py", """        if testnpars < 0:
""", """        if testnpars < -1:
""")],
"an arbitrary baseline with -1 parameters",
"a negative number of parameters is accepted",
"""
from diffpy.srmise.baselines.arbitrary import Arbitrary
try:
    Arbitrary(-1, lambda p, r: r)
except ValueError:
    pass
else:
    assert False
""")

bug("C09-extension-right", "C09", [("peaks/terminationripples.py", "        right_ext = np.arange(r[-1] + dr, r[-1] + ext + dr, dr)\n", "        right_ext = np.arange(r[-1] + dr, r[-1] + dr * (len(left_ext) + 1), dr)\n")],
"data which begin near the origin, and a peak near the end of the data",
"the grid is extended on the right only as far as the origin allows on the left",
"""
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.terminationripples import TerminationRipples
g = Gaussian(1.0)
t = TerminationRipples(g, 12.0)
p = t.actualize([5.0, 0.3, 4.0], "pwa")
r = np.arange(0.02, 5.0, 0.02)
long_r = np.arange(0.02, 9.0, 0.02)
assert np.allclose(p.value(r), p.value(long_r)[: len(r)], atol=0.2)
""")

False and bug("C09-supersample", "C09", [("peaks/terminationripples.py", """            dr = (r[-1] - r[0]) / (len(r) - 1) if len(r) > 1 else dr_super
            segments = int(np.ceil(dr / dr_super))
            dr_segmented = dr / segments

            rpart = r[rng]
            if segments > 1:
                rpart = np.arange(rpart[0], rpart[-1] + dr_segmented / 2, dr_segmented)

            (ext_r, ext_slice) = self.extend_grid(rpart, dr_segmented)
            value =""", """            dr = (r[-1] - r[0]) / (len(r) - 1) if len(r) > 1 else dr_super
            segments = int(round(dr / dr_super)) or 1
            dr_segmented = dr / segments

            rpart = r[rng]
            if segments > 1:
                rpart = np.arange(rpart[0], rpart[-1] + dr_segmented / 2, dr_segmented)

            (ext_r, ext_slice) = self.extend_grid(rpart, dr_segmented)
            value =""")],
"a grid whose step is 1 to 1.5 times the supersampled one",
"the grid for the ripples may be coarser than the supersampling asked for",
"""
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.terminationripples import TerminationRipples
g = Gaussian(1.0)
t = TerminationRipples(g, 10.0, supersample=4.0)
seen = []
def valueraw(pars, r, f=t._valueraw):
    seen.append(np.diff(r).max())
    return f(pars, r)
t._valueraw = valueraw
p = t.actualize([5.0, 0.3, 4.0], "pwa")
ds = 2 * np.pi / 40
p.value(np.arange(4, 6, 1.3 * ds))
assert max(seen) <= ds * (1 + 1e-9)
""")

bug("C10-update-order", "C10", [("modelparts.py", "        self.pars[self.free] = freepars[:numfree]\n", "        self.pars[self.free] = np.asarray(freepars[:numfree], dtype=self.pars.dtype).round(12)\n")],
"parameters of small size",
"packing free parameters rounds them to 12 decimals",
"""
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.modelparts import ModelParts
b = Polynomial(1).actualize([1e-14, 2.0])
m = ModelParts([b])
v = m.unpack_freepars()
m.pack_freepars(v)
assert b.pars[0] == 1e-14, b.pars
""")

bug("C10-sort-reverse", "C10", [("peaks/base.py", """        order = keypars.argsort()
        self[:]""", """        order = np.unique(keypars, return_index=True)[1]
        self[:]""")],
"two peaks at the same position",
"sorting loses one of two peaks at exactly the same position",
"""
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
g = Gaussian(1.0)
p = Peaks([g.actualize(x, "pwa") for x in ([2, .3, 1], [1, .3, 1], [2, .5, 2])])
p.sort()
assert len(p) == 3
""")

bug("C10-eq-removable", "C10", [("modelparts.py", """                and np.all(self.free == other.free)
                and""", """                and np.sum(self.free) == np.sum(other.free)
                and""")],
"two parts with as many fixed parameters, but others",
"parts with different fixed parameters are equal",
"""
from diffpy.srmise.peaks.gaussian import Gaussian
g = Gaussian(1.0)
a = g.actualize([2, .3, 1], "pwa", free=[False, True, True])
b = g.actualize([2, .3, 1], "pwa", free=[True, False, True])
assert a != b
""")

bug("C10-copy-static", "C10", [("modelparts.py", """            self.removable,
            self.static_owner,
        )""", """            self.removable,
        )""")],
"a part whose owner is not to be changed, copied",
"copies lose the mark that the owner is not to be changed",
"""
from diffpy.srmise.peaks.gaussian import Gaussian
g = Gaussian(1.0)
a = g.actualize([2, .3, 1], "pwa", static_owner=True)
assert a.copy().static_owner is True
""")

bug("C10-safelist", "C10", [("basefunction.py", """        if f not in fsafe:
            if f.base is not None:
                BaseFunction.safefunction(f.base, fsafe)
            fsafe.append(f)
""", """        if f not in fsafe:
            if f.base is not None and f.base not in fsafe:
                fsafe.append(f.base)
            fsafe.append(f)
""")],
"a function whose base has a base itself",
"the base of a base is not put before them in the list of functions",
"""
from diffpy.srmise.basefunction import BaseFunction
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.terminationripples import TerminationRipples
g = Gaussian(1.0)
t = TerminationRipples(g, 20.0)
u = TerminationRipples(t, 10.0)
assert BaseFunction.safefunctionlist([u]) == [g, t, u]
""")

bug("C10-metadata-base", "C10", [("basefunction.py", """            lines.append("base=%s" % repr(baselist.index(self.base)))""", """            lines.append("base=%s" % repr([type(b) for b in baselist].index(type(self.base))))""")],
"two functions of the same type, the base being the second",
"a function written to text names the first function of the type of its base",
"""
from diffpy.srmise.basefunction import BaseFunction
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.terminationripples import TerminationRipples
g, h = Gaussian(1.0), Gaussian(0.5)
t = TerminationRipples(h, 20.0)
s = t.writestr([g, h])
assert BaseFunction.factory(s, [g, h]).base is h
""")

bug("C11-ntrials", "C11", [("modelparts.py", """        if f[4] not in (1, 2, 3, 4):""", """        if f[4] not in (1, 2, 3, 4, 5):""")],
"a fit which runs out of function evaluations",
"a fit which ran out of trials counts as succeeded",
"""
from diffpy.srmise.modelparts import ModelParts
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.srmiseerrors import SrMiseFitError
g = Gaussian(2.0)
r = np.arange(0, 10, 0.1)
y = g.actualize([5.0, 0.7, 3.0], "pwa").value(r)
m = ModelParts([g.actualize([4.0, 0.3, 1.0], "pwa")])
try:
    m.fit(r, y, np.ones(len(r)), ntrials=3)
except SrMiseFitError:
    pass
else:
    assert False
""")

bug("C11-error-slice", "C11", [("modelparts.py", "            return (y_expected[range] - total[range]) / y_error[range]\n", "            return (y_expected[range] - total[range]) / y_error[: len(y_expected[range])]\n")],
"a fit in a range not starting at the first point, with varying uncertainties",
"the residual in a range is weighted with the uncertainties of the first points",
"""
from diffpy.srmise.modelparts import ModelParts
from diffpy.srmise.baselines.polynomial import Polynomial
r = np.arange(20.0)
rng = np.random.RandomState(0)
y = rng.normal(size=20); e = np.exp(rng.normal(size=20))
m = ModelParts([Polynomial(1).actualize([0.0, 0.0])])
s = slice(5, 17)
m.fit(r, y, e, range=s)
w = np.polyfit(r[s], y[s], 1, w=1 / e[s])
assert np.allclose(m[0].pars, w, atol=1e-6), (m[0].pars, w)
""")

bug("C11-cleanup-first", "C11", [("modelparts.py", """        for p in self:
            p.pars = p.owner().transform_parameters(p.pars, in_format="internal", out_format="internal")
""", """        for p in self[: next((i for i, q in enumerate(self) if not q.removable), len(self))]:
            p.pars = p.owner().transform_parameters(p.pars, in_format="internal", out_format="internal")
""")],
"a model whose first part may not be removed, and a later peak which ends outside the preferred range of parameters",
"parameters of parts after one which is not removable are not restored to their preferred range",
"""
from diffpy.srmise.modelparts import ModelParts
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.baselines.polynomial import Polynomial
g = Gaussian(2.0)
r = np.arange(0, 10, 0.1)
y = g.actualize([5.0, 0.7, 3.0], "pwa").value(r) + 0.5
p = g.actualize([5.1, 0.6, 2.0], "pwa")
p.pars[2] = -p.pars[2]
m = ModelParts([Polynomial(0).actualize([0.4]), p])
m.fit(r, y, np.ones(len(r)))
assert m[1].pars[2] >= 0, m[1].pars
""")

bug("C11-too-few", "C11", [("modelparts.py", "        if len(freepars) >= len(r):\n", "        if len(freepars) > len(r):\n")],
"as many free parameters as points",
"a fit with as many free parameters as points is not refused",
"""
from diffpy.srmise.modelparts import ModelParts
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.srmiseerrors import SrMiseFitError
r = np.arange(2.0)
m = ModelParts([Polynomial(1).actualize([0.0, 0.0])])
try:
    m.fit(r, r + 1, np.ones(2))
except SrMiseFitError:
    pass
else:
    assert False
""")

bug("C11-pack-nan", "C11", [("modelparts.py", """            freeidx += p.update(freepars[freeidx:])""", """            freeidx += p.update(freepars[freeidx:]) or p.npars() - np.sum(p.free)""")],
"a part with all parameters fixed before one with free ones",
"free parameters are packed into the wrong parts after a part whose parameters are all fixed",
"""
from diffpy.srmise.modelparts import ModelParts
from diffpy.srmise.baselines.polynomial import Polynomial
b = Polynomial(1).actualize([1.0, 2.0], free=[False, False])
c = Polynomial(2).actualize([3.0, 4.0, 5.0])
m = ModelParts([b, c])
m.pack_freepars(np.array([6.0, 7.0, 8.0]))
assert list(c.pars) == [6.0, 7.0, 8.0], c.pars
""")
