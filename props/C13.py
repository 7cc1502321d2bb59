"""A cluster of data and its model under every operation on it."""

import numpy as np
from hypothesis import strategies as st

from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.peaks.base import Peaks
from harness import gen, mc, ref
from harness.core import LawSet, check

LAWS = LawSet(
    "C13",
    assumptions=[
        "clusters hold at least one point; data, errors (positive) and starting models are finite",
        "recovery by pruning or augmenting is claimed for separated peaks and data without noise",
    ],
)


def state(m):
    return (
        [(list(map(float, p.pars)), list(map(bool, p.free)), p.removable) for p in m.model],
        None if m.baseline is None else list(map(float, m.baseline.pars)),
    )


def consistent(m, c, y, r, e, sorted_=True):
    """Everything the cluster reports follows from its parts."""
    s = m.slice
    check(np.array_equal(m.r_data, r) and np.array_equal(m.y_error, e), "r or errors changed")
    check(np.allclose(m.y_data, y, rtol=1e-10, atol=1e-10), "y changed")
    check(m.size == len(r[s]), "size %s of slice %s", m.size, s)
    check(np.array_equal(m.r_cluster, r[s]), "r of the cluster")
    check(np.array_equal(m.y_cluster, m.y_data[s]), "y of the cluster")
    check(np.array_equal(m.error_cluster, e[s]), "errors of the cluster")
    pos = [float(p["position"]) for p in m.model]
    if sorted_:
        check(pos == sorted(pos), "peaks are not in order: %s", pos)
    bl = np.zeros(len(r)) if m.baseline is None else m.baseline.value(r)
    each = [p.value(r) for p in m.model]
    tot = bl + sum(each, np.zeros(len(r)))
    scale = max(1.0, float(np.max(np.abs(tot))))
    for got, want, what in (
        (m.value(), tot[s], "value"),
        (m.value(r), tot, "value on a grid"),
        (m.valuebl(), bl[s], "baseline"),
        (m.valuebl(r), bl, "baseline on a grid"),
        (m.residual(), m.y_data[s] - tot[s], "residual"),
    ):
        check(np.shape(got) == np.shape(want) and np.allclose(got, want, rtol=1e-9, atol=1e-9 * scale), "%s: %s, expected %s", what, got, want)
    npk, nb = sum(len(p) for p in m.model), 0 if m.baseline is None else len(m.baseline)
    fpk = sum(sum(map(bool, p.free)) for p in m.model)
    fb = 0 if m.baseline is None else sum(map(bool, m.baseline.free))
    check((m.npars(), m.npars(count_baseline=False)) == (npk + nb, npk), "number of parameters %s", m.npars())
    check(m.npars(count_fixed=False) == fpk + fb, "free parameters %s, expected %s", m.npars(count_fixed=False), fpk + fb)
    check(m.npars(count_baseline=False, count_fixed=False) == fpk, "free peak parameters")
    q = m.quality().stat
    w = mc.stat(m, c["eval"])
    check(ref.close(q, w, 1e-8), "quality %r, expected %r", q, w)
    j = m.plottable(joined=True)
    check(np.array_equal(j[0], r[s]) and np.array_equal(j[1], m.y_data[s]) and np.array_equal(j[2], r[s]), "plottable, joined")
    check(np.allclose(j[3], tot[s], rtol=1e-9, atol=1e-9 * scale), "plottable, joined: %s", j[3])
    p = m.plottable()
    check(len(p) == 2 + 2 * len(each) and np.array_equal(p[0], r[s]) and np.array_equal(p[1], m.y_data[s]), "plottable: %d entries", len(p))
    for i, v in enumerate(each):
        check(np.array_equal(p[2 + 2 * i], r[s]), "plottable: r of peak %d", i)
        check(np.allclose(p[3 + 2 * i], (bl + v)[s], rtol=1e-9, atol=1e-9 * scale), "plottable: peak %d", i)
    pr = m.plottable_residual()
    check(np.array_equal(pr[0], r[s]) and np.array_equal(pr[1], m.residual()), "plottable residual")
    check(len(str(m)) > 0, "text")
    return float(q)


OPS = st.one_of(
    st.fixed_dictionaries({"op": st.just("fit"), "justify": st.booleans(), "base": st.booleans(), "ntrials": st.sampled_from([0, 0, 0, 1, 3, 15])}),
    st.fixed_dictionaries({"op": st.just("add"), "peaks": st.lists(mc.peakspec(2.2, 7.0), max_size=2)}),
    st.fixed_dictionaries({"op": st.just("del"), "i": st.integers(0, 5)}),
    st.fixed_dictionaries(
        {"op": st.just("replace"), "a": st.integers(0, 4), "b": st.integers(0, 5), "peaks": st.lists(mc.peakspec(2.2, 7.0), max_size=2)}
    ),
    st.fixed_dictionaries({"op": st.just("slice"), "l": st.integers(-8, 8), "r": st.integers(-8, 8)}),
    st.fixed_dictionaries({"op": st.just("contingent"), "min": st.integers(1, 60), "thr": st.sampled_from([1.0, 1.2, 1.5, 3.0])}),
    st.fixed_dictionaries({"op": st.just("clean")}),
    st.fixed_dictionaries({"op": st.just("estimate")}),
    st.fixed_dictionaries({"op": st.just("prune")}),
    st.fixed_dictionaries({"op": st.just("augment"), "peaks": st.lists(mc.peakspec(2.2, 7.0), max_size=2)}),
    st.fixed_dictionaries({"op": st.just("external"), "peaks": st.lists(mc.peakspec(2.2, 7.0), min_size=1, max_size=2)}),
    st.fixed_dictionaries({"op": st.just("reduce"), "x": gen.floats(2.2, 7.0), "y": gen.floats(0.01, 4)}),
    st.fixed_dictionaries({"op": st.just("copy")}),
)


@st.composite
def history(draw):
    c = draw(mc.cluster((0, 3)))
    c["ops"] = draw(st.lists(OPS, min_size=1, max_size=5))
    return c


def kept(before, after):
    """Peaks which may not be removed are still there (as many, with their fixed values)."""
    nb = [p for p in before if not p[2]]
    na = [p for p in after if not p[2]]
    check(len(nb) <= len(na), "a peak which is not removable was removed: %s, then %s", nb, na)
    fixed = sorted([p[0][j] for p in nb for j in range(3) if not p[1][j]])
    left = [p[0][j] for p in na for j in range(3) if not p[1][j]]
    for v in fixed:
        check(any(abs(v - w) <= 1e-12 * max(1, abs(v)) for w in left), "a fixed value %r is gone: %s", v, left)


@LAWS.law(history, quick=500, rule="non-trivial: some operation changed the model")
def operations(c, note):
    """Through any sequence of operations a cluster stays consistent, and no operation which improves it makes it worse."""
    m, pf, r, y, e = mc.make(c)
    y = y.copy()
    r0, e0 = r.copy(), e.copy()
    q = consistent(m, c, y, r0, e0)
    changed = False
    fitted_size = 0
    basefit = False  # baseline or data were changed since the range was set
    others = []
    for op in c["ops"]:
        before, q0, s0 = state(m), q, m.slice
        k = op["op"]
        ordered = True
        if k in ("fit", "contingent"):
            empty = len(m.model) == 0
            never = m.never_fit
            basefit = basefit or (k == "fit" and op["base"])
            if k == "fit":
                res = m.fit(justify=op["justify"], fitbaseline=op["base"], ntrials=op.get("ntrials", 0))
            else:
                grown = fitted_size is None or (fitted_size > 0 and m.size / fitted_size >= op["thr"]) or (fitted_size == 0 and m.size >= op["min"])
                res = m.contingent_fit(op["min"], op["thr"])
                if not grown:
                    check(res is None and state(m) == before, "a cluster which did not grow was fit")
            if never:
                check(res is None and state(m) == before, "a cluster within its errors was fit")
            else:
                yn = m.y_data - (m.baseline.value(r) if m.baseline is not None else 0.0)
                check(k == "contingent" or basefit or not (yn - e)[m.slice].max() < 0 or s0 != slice(*c["slice"]), "fit of a cluster within its errors")
            if not never and (k == "fit" or grown) and not (empty and len(m.model) == 0):
                fitted_size = m.size
            if res is None:
                if not empty:
                    check(state(m) == before, "a fit without result changed the model from %s to %s", before, state(m))
            else:
                check(ref.close(res.stat, mc.stat(m, c["eval"]), 1e-8), "fit returned %r, quality %r", res.stat, mc.stat(m, c["eval"]))
                if not empty:
                    check(res.stat <= q0 + 1e-9 * abs(q0), "fit worsened the quality from %r to %r", q0, res.stat)
                if not (k == "fit" and op["base"]):
                    check(state(m)[1] == before[1], "the baseline was fit")
            if not empty:
                kept(before[0], state(m)[0])
                check(len(m.model) <= len(before[0]), "a fit added peaks")
        elif k == "add":
            m.replacepeaks(mc.peaks(op["peaks"], pf))
            got = sorted(p[0] for p in state(m)[0])
            want = sorted([p[0] for p in before[0]] + [list(map(float, p.pars)) for p in mc.peaks(op["peaks"], pf)])
            check(got == want, "adding peaks gave %s, expected %s", got, want)
        elif k in ("del", "replace"):
            sl = slice(op["i"], op["i"] + 1) if k == "del" else slice(op["a"], max(op["a"], op["b"]))
            new = [] if k == "del" else op["peaks"]
            bad = any(not p[2] for p in before[0][sl])
            try:
                if k == "del":
                    m.deletepeak(op["i"])
                else:
                    m.replacepeaks(mc.peaks(new, pf), sl)
                check(not bad, "a peak which is not removable was deleted")
                rest = list(before[0])
                rest[sl] = [(list(map(float, p.pars)), p.free, True) for p in mc.peaks(new, pf)]
                check(sorted(p[0] for p in rest) == sorted(p[0] for p in state(m)[0]), "deleting %s of %s gave %s", sl, before, state(m))
            except ValueError:
                check(bad, "deletion of %s was refused", sl)
                check(state(m) == before, "a refused deletion changed the model")
        elif k == "slice":
            a = min(max(m.slice.start + op["l"], 0), len(r) - 3)
            b = min(max(m.slice.stop + op["r"], a + 3), len(r))
            old = m.never_fit
            m.change_slice(slice(a, b))
            yn = m.y_data - (m.baseline.value(r) if m.baseline is not None else 0.0)
            inside = bool((yn - e)[a:b].max() < 0)
            check(state(m) == before, "a change of range changed the model")
            check(inside or basefit or not m.never_fit, "a cluster with points above the errors is never fit")
            check(not (inside and old) or m.never_fit, "a cluster within its errors is to be fit")
        elif k == "clean":
            n = m.cleanfit()
            rc = m.r_cluster
            for p, st_ in zip(mc_parts(before, pf), before[0]):
                out = not rc[0] <= st_[0][0] <= rc[-1]
                small = bool(np.max(p.value(rc) - m.error_cluster) < 0)
                still = st_ in state(m)[0]
                if out and small and st_[2]:
                    check(not still, "a negligible peak outside the cluster was kept: %s", st_)
                elif not (st_[0][0] == rc[-1]):
                    check(still, "peak %s was cleaned out", st_)
            check(n == len(before[0]) - len(m.model), "cleaning reports %s of %d", n, len(before[0]) - len(m.model))
        elif k == "estimate":
            if len(m.model) == 0:
                try:
                    res = m.estimatepeak()
                    check(res is True and len(m.model) == 1, "estimate: %s", res)
                    p = m.model[0].owner().transform_parameters(m.model[0].pars, "internal", "pwa")
                    check(m.r_cluster[0] <= p[0] <= m.r_cluster[-1] and 0 < p[1] <= 0.7 * (1 + 1e-9) and p[2] > 0, "estimate %s", p)
                except Exception as x:
                    check(type(x).__name__ == "SrMiseEstimationError", "estimation failed with %r", x)
                    check(state(m) == before, "a failed estimate changed the model")
        elif k == "prune":
            m.prune()
            kept(before[0], state(m)[0])
            check(len(m.model) <= len(before[0]), "pruning added peaks")
            check(m.quality().stat <= q0 + 1e-6 * abs(q0) + 1e-9, "pruning worsened the quality from %r to %r", q0, m.quality().stat)
            check(state(m)[1] == before[1], "pruning changed the baseline")
        elif k == "augment":
            src = ModelCluster(mc.peaks(op["peaks"], pf), None, r, m.y_data, e, m.slice, m.error_method, [pf])
            sb = state(src)
            m.augment(src)
            check(state(src) == sb, "augmenting changed its source")
            kept(before[0], state(m)[0])
            check(m.quality().stat <= q0 + 1e-6 * abs(q0) + 1e-9, "augmenting worsened the quality from %r to %r", q0, m.quality().stat)
            check(len(m.model) <= len(before[0]) + len(op["peaks"]), "augmenting added %d peaks", len(m.model))
        elif k == "external":
            new = mc.peaks(op["peaks"], pf)
            y = y + new.value(r)
            m.addexternalpeaks(new)
            basefit = True
        elif k == "reduce":
            res = m.reduce_to(op["x"], op["y"])
            if res is None:
                check(state(m)[0] == before[0], "a reduction without result changed the model")
            else:
                check(ref.close(res.stat, mc.stat(m, c["eval"]), 1e-8), "reduction returned %r", res.stat)
            kept(before[0], state(m)[0])
        elif k == "copy":
            d = m.copy()
            check(state(d) == state(m) and d.slice == m.slice and d.error_method is m.error_method, "copy differs")
            check(d.r_data is m.r_data and d.y_data is m.y_data and d.y_error is m.y_error, "a copy shares the data")
            keep = state(m), m.slice, list(m.peak_funcs)
            x = m.copy()
            for p in list(x.model) + ([] if x.baseline is None else [x.baseline]):
                p.pars += 1.0
                p.free[:] = ~p.free
            x.peak_funcs.append(None)
            x.model[:] = x.model[1:]
            x.change_slice(slice(x.slice.start, x.slice.stop - 1))
            check((state(m), m.slice, list(m.peak_funcs)) == keep, "changing a copy changed the original to %s", state(m))
            others.append((m, state(m)))
            m, fitted_size = d, 0
        if k in ("augment", "reduce"):
            fitted_size = None  # these may fit, too
        q = consistent(m, c, y, r0, e0, ordered)
        if state(m) != before:
            changed = True
            note(k)
        for o, s in others:
            check(state(o) == s, "changing a copy changed the original")
    return changed


def mc_parts(before, pf):
    return [pf.actualize(p[0], "internal") for p in before[0]]


@st.composite
def swaps(draw):
    spec = mc.peakspec(2.2, 7.0)
    old = draw(st.lists(spec, min_size=1, max_size=5))
    n = len(old)
    stay = draw(st.sampled_from(["none", "one", "any"]))
    k = draw(st.integers(0, n - 1))
    for i, p in enumerate(old):
        p["removable"] = {"none": True, "one": i != k, "any": p["removable"]}[stay]
    steps = st.tuples(st.integers(-n - 1, n + 1), st.integers(-n - 1, n + 1), st.sampled_from([1, 1, 1, 2, -1])).map(list)
    return {
        "kind": draw(ref.KINDS),
        "old": old,
        "new": draw(st.lists(spec, max_size=3)),
        "slice": draw(st.one_of(st.just([None, None, 1]), steps)),
        "how": draw(st.sampled_from(["replace", "replace", "delete", "default"])),
        "i": draw(st.integers(0, n - 1)),
    }


@LAWS.law(swaps, quick=300, rule="non-trivial: several peaks replaced, or refused")
def replace(c, note):
    """Replacing peaks takes out exactly the slice and adds all new ones in order, or changes nothing if one may not be removed."""
    pf = ref.make_pf(c["kind"], 0.7)
    r = 2.0 + 0.1 * np.arange(50)
    ps = mc.peaks(c["old"], pf)
    ps.sort(key="position")
    m = ModelCluster(ps, None, r, np.full(50, 9.0), np.ones(50), None, mc.evaluator("AIC"), [pf])
    old = list(m.model)
    before = state(m)
    new = [] if c["how"] == "delete" else list(mc.peaks(c["new"], pf))
    sl = {"replace": slice(*c["slice"]), "delete": slice(c["i"], c["i"] + 1), "default": slice(0, 0)}[c["how"]]
    if sl.step not in (None, 1) and len(old[sl]) != len(new):
        sl = slice(sl.start, sl.stop)  # only as many as given can be put into an extended slice
    gone = old[sl]
    refuse = any(not p.removable for p in gone)
    try:
        if c["how"] == "delete":
            m.deletepeak(c["i"])
        elif c["how"] == "default":
            m.replacepeaks(Peaks(new))
        else:
            m.replacepeaks(Peaks(new), sl)
    except ValueError:
        check(refuse, "replacing %s was refused", sl)
        check(state(m) == before, "a refused replacement changed the model to %s", state(m))
        return True
    check(not refuse, "peaks which are not removable were replaced: %s", [p.pars[0] for p in gone])
    ids = {id(p) for p in gone}
    want = [(list(map(float, p.pars)), list(map(bool, p.free)), p.removable) for p in [q for q in old if id(q) not in ids] + new]
    got = state(m)[0]
    check(sorted(map(repr, got)) == sorted(map(repr, want)), "replacing %s of %s gave %s, expected %s", sl, before, got, want)
    pos = [float(p["position"]) for p in m.model]
    check(pos == sorted(pos), "the peaks are not in order: %s", pos)
    return len(gone) >= 2


@st.composite
def edges(draw):
    n = draw(st.integers(12, 40))
    a = draw(st.integers(0, n - 6))
    b = draw(st.integers(a + 4, n))
    lo, hi = 2.0 + 0.1 * a, 2.0 + 0.1 * (b - 1)
    near = st.fixed_dictionaries(
        {
            "pos": st.one_of(gen.floats(lo - 1.5, lo + 0.3), gen.floats(hi - 0.3, hi + 1.5), gen.floats(lo, hi)),
            "width": gen.floats(0.1, 0.69),
            "area": st.one_of(gen.floats(0.01, 1.0), gen.floats(0.5, 20)),
            "free": st.just([True] * 3),
            "removable": st.sampled_from([True, True, True, False]),
        }
    )
    return {"n": n, "slice": [a, b], "kind": draw(ref.KINDS), "peaks": draw(st.lists(near, min_size=1, max_size=5)), "e": draw(st.lists(st.sampled_from([0.05, 0.3, 1.0, 5.0]), min_size=n, max_size=n))}


@LAWS.law(edges, quick=400, rule="non-trivial: >= 1 peak removed and >= 1 peak outside kept")
def clean(c, note):
    """Cleaning removes exactly the removable peaks outside the range which stay below the uncertainty at each of its points."""
    pf = ref.make_pf(c["kind"], 0.7)
    r = 2.0 + 0.1 * np.arange(c["n"])
    e = np.array(c["e"])
    ps = mc.peaks(c["peaks"], pf)
    ps.sort(key="position")
    a, b = c["slice"]
    m = ModelCluster(ps, None, r, np.full(len(r), 9.0), e, slice(a, b), mc.evaluator("AIC"), [pf])
    want, unsure, out = [], False, 0
    for p in list(m.model):
        q = p.owner().transform_parameters(p.pars, "internal", "pwa")
        outside = not r[a] <= q[0] <= r[b - 1]
        over = float(np.max(ref.peakvalue(c["kind"], q[0], q[1], q[2], r)[a:b] - e[a:b]))
        unsure = unsure or abs(over) < 1e-9 or min(abs(q[0] - r[a]), abs(q[0] - r[b - 1])) < 1e-9
        out += outside
        if not (outside and over < 0 and p.removable):
            want.append(p)
    if unsure:
        return False
    before = [np.array(p.pars) for p in want]
    n = len(m.model)
    k = m.cleanfit()
    check([id(p) for p in m.model] == [id(p) for p in want], "peaks %s are left of %s, expected %s", [p[0] for p in m.model], [p["pos"] for p in c["peaks"]], [p[0] for p in want])
    check(k == n - len(want), "cleaning reports %s of %d", k, n - len(want))
    check(all(np.array_equal(p.pars, q) for p, q in zip(want, before)), "cleaning changed a peak")
    return k > 0 and out > k


@st.composite
def ranges(draw):
    n = draw(st.integers(8, 40))
    moves = st.tuples(st.integers(-3, 3), st.integers(-3, 3)).map(list)
    return {
        "n": n,
        "high": draw(st.lists(st.integers(0, n - 1), max_size=3)),
        "over": draw(st.sampled_from([1.01, 1.5, 20.0])),
        "e": draw(st.lists(st.sampled_from([0.5, 1.0, 2.0]), min_size=n, max_size=n)),
        "base": draw(st.sampled_from(["missing", "poly0", "poly1"])),
        "bp": draw(st.lists(gen.floats(-3, 3), min_size=2, max_size=2)),
        "start": draw(st.tuples(st.integers(0, n - 4), st.integers(3, 9)).map(list)),
        "moves": draw(st.lists(moves, min_size=1, max_size=6)),
    }


@LAWS.law(ranges, quick=500, rule="non-trivial: the cluster comes to hold a point above the errors by growing")
def worth(c, note):
    """A cluster is left alone exactly as long as it has held no point above the errors, as its range changes."""
    n = c["n"]
    r = 1.0 + 0.1 * np.arange(n)
    e = np.array(c["e"])
    b = mc.baseline(dict(c, bfree=True))
    bl = b.value(r) if b is not None else np.zeros(n)
    y = bl + 0.3 * e * np.sin(9 * r)
    y[c["high"]] = bl[c["high"]] + c["over"] * e[c["high"]]
    a, z = c["start"][0], min(n, sum(c["start"]))
    m = ModelCluster(None, b, r, y, e, slice(a, z), mc.evaluator("AIC"), [ref.make_pf("G", 0.7)])
    seen = set(range(a, z))
    check(bool(m.never_fit) == (not seen & set(c["high"])), "range %d to %d of points above at %s: never fit %s", a, z, c["high"], m.never_fit)
    first = bool(m.never_fit)
    for d, u in c["moves"]:
        a = min(max(a + d, 0), n - 3)
        z = min(max(z + u, a + 3), n)
        if not seen & set(range(a, z)):
            break
        m.change_slice(slice(a, z))
        check(m.slice == slice(a, z) and m.size == z - a and np.array_equal(m.r_cluster, r[a:z]) and np.array_equal(m.y_cluster, y[a:z]) and np.array_equal(m.error_cluster, e[a:z]), "data of the range %d to %d", a, z)
        seen |= set(range(a, z))
        if m.never_fit:
            check(not set(range(a, z)) & set(c["high"]), "a cluster from %d to %d is never fit, with points above at %s", a, z, c["high"])
            check(m.fit() is None and len(m.model) == 0, "a cluster within its errors was fit")
        elif not seen & set(c["high"]):
            check(False, "a cluster from %d to %d is to be fit, with points above at %s only", a, z, c["high"])
    return first and not m.never_fit


@st.composite
def redundant(draw):
    truth, end = draw(mc.separated(draw(st.integers(1, 4))))
    junk = draw(
        st.lists(
            st.fixed_dictionaries({"pos": gen.floats(2.5, end - 0.5), "width": gen.floats(0.2, 0.5), "area": gen.floats(1e-4, 1e-3)}),
            max_size=3,
        )
    )
    for j in junk:
        j.update(free=[True] * 3, removable=draw(st.integers(0, 4)) > 0)
    return {
        "kind": draw(ref.KINDS),
        "truth": truth,
        "junk": junk,
        "missing": sorted(draw(st.sets(st.integers(0, 3), max_size=2))),
        "grid": {"r0": 2.0, "dr": 0.05, "n": int((end - 2.0) / 0.05)},
        "err": draw(st.sampled_from([0.1, 0.3])),
        "eval": draw(st.sampled_from(["AIC", "AICc"])),
    }


def found(m, truth):
    """Indices of the true peaks which the model has (position and width, within 5% of the width)."""
    out = []
    for i, t in enumerate(truth):
        for p in m.model:
            q = p.owner().transform_parameters(p.pars, "internal", "pwa")
            if abs(q[0] - t["pos"]) < 0.05 * t["width"] and abs(q[1] - t["width"]) < 0.05 * t["width"]:
                out.append(i)
                break
    return out


@LAWS.law(redundant, quick=150, rule="non-trivial: >= 1 redundant removable peak and >= 1 true one")
def prune(c, note):
    """Pruning removes redundant peaks, and neither needed ones nor those marked as not removable."""
    pf = ref.make_pf(c["kind"], 0.7)
    r = ref.grid(c["grid"])
    y = mc.peakvalues(c, c["truth"], r)
    ps = mc.peaks(c["truth"] + c["junk"], pf)
    ps.sort(key="position")
    m = ModelCluster(ps, None, r, y, c["err"] * np.ones(len(r)), None, mc.evaluator(c["eval"]), [pf])
    stay = len([j for j in c["junk"] if not j["removable"]])
    m.prune()
    need = [i for i, t in enumerate(c["truth"]) if ref.peakvalue(c["kind"], t["pos"], t["width"], t["area"], t["pos"]) > 5 * c["err"]]
    check(len(m.model) >= len(need), "pruning left %d peaks of %d needed", len(m.model), len(need))
    if stay == 0:
        check(set(need) <= set(found(m, c["truth"])), "pruning lost a peak: %s", m.model)
        check(len(m.model) <= len(c["truth"]), "pruning left %d peaks for %d", len(m.model), len(c["truth"]))
    check(len([p for p in m.model if not p.removable]) == stay, "pruning removed a peak which is not removable")
    return any(j["removable"] for j in c["junk"])


@LAWS.law(redundant, quick=100, rule="non-trivial: >= 1 peak was missing")
def augment(c, note):
    """Augmenting adds the missing peaks which improve the model, fitted."""
    pf = ref.make_pf(c["kind"], 0.7)
    r = ref.grid(c["grid"])
    y = mc.peakvalues(c, c["truth"], r)
    have = [t for i, t in enumerate(c["truth"]) if i not in c["missing"]]
    rest = [t for i, t in enumerate(c["truth"]) if i in c["missing"]]
    e = c["err"] * np.ones(len(r))
    ev = mc.evaluator(c["eval"])
    m = ModelCluster(mc.peaks(have, pf), None, r, y, e, None, ev, [pf])
    src = ModelCluster(mc.peaks(rest, pf), None, r, y, e, None, ev, [pf])
    m.augment(src)
    need = [i for i, t in enumerate(c["truth"]) if ref.peakvalue(c["kind"], t["pos"], t["width"], t["area"], t["pos"]) > 5 * c["err"]]
    check(set(need) <= set(found(m, c["truth"])), "augmenting found %s of %s: %s", found(m, c["truth"]), need, m.model)
    check(len(m.model) <= len(c["truth"]), "augmenting made %d peaks of %d", len(m.model), len(c["truth"]))
    return bool(rest)


@st.composite
def joining(draw):
    truth, end = draw(mc.separated(draw(st.integers(2, 4))))
    n = int((end - 2.0) / 0.05)
    a = draw(st.integers(0, 5))
    border = draw(st.integers(a + 10, n - 10))
    b = draw(st.integers(border + 5, n))
    lo, mid, hi = 2.0 + 0.05 * a, 2.0 + 0.05 * (border - 0.5), 2.0 + 0.05 * b
    span = draw(st.sampled_from([0.0, 0.3]))  # how far peaks lie across the border
    left = draw(st.lists(mc.peakspec(lo, mid + span, free=False), max_size=3))
    right = draw(st.lists(mc.peakspec(mid - span, hi, free=False), max_size=3))
    cross = draw(st.sampled_from(["none", "none", "left", "right"]))
    if cross == "left" and right:  # a peak of one side beyond some of the other
        left = left[:2] + [draw(mc.peakspec(mid, hi, free=False))]
    elif cross == "right" and left:
        right = right[:2] + [draw(mc.peakspec(lo, mid, free=False))]
    return {
        "kind": draw(ref.KINDS),
        "truth": truth,
        "grid": {"r0": 2.0, "dr": 0.05, "n": n},
        "a": a,
        "border": border,
        "b": b,
        "left": left,
        "right": right,
        "gap": draw(st.sampled_from([0] * 10 + [1, -1])),
        "swap": draw(st.booleans()),
        "share": draw(st.sampled_from(["all"] * 15 + ["r", "y", "e", "ev", "bl"])),
        "bl": draw(st.sampled_from([None, [0.25], [-0.5]])),
        "pfs": draw(st.booleans()),
    }


@LAWS.law(joining, quick=400, rule="non-trivial: joined, peaks on both sides")
def join(c, note):
    """Joining neighbours keeps every peak on its own side, covers both ranges, and does not exceed the data at the border."""
    from diffpy.srmise.baselines.polynomial import Polynomial

    pf = ref.make_pf(c["kind"], 0.7)
    pf2 = ref.make_pf(c["kind"], 0.9) if c["pfs"] else pf
    r = ref.grid(c["grid"])
    y = mc.peakvalues(c, c["truth"], r)
    e = np.ones(len(r))
    polyfn = Polynomial(0)

    def bl(v):
        return None if c["bl"] is None and v is None else polyfn.actualize(v or c["bl"])

    cp = lambda k, arr: arr.copy() if c["share"] == k else arr  # noqa: E731
    lp, rp = mc.peaks(c["left"], pf), mc.peaks(c["right"], pf2)
    lp.sort(key="position")
    rp.sort(key="position")
    m1 = ModelCluster(lp, bl(None), r, y, e, slice(c["a"], c["border"]), mc.evaluator("AIC"), [pf])
    start = min(max(c["border"] + c["gap"], c["a"] + 1), c["b"] - 1)
    m2 = ModelCluster(
        rp,
        bl([7.0] if c["share"] == "bl" else None),
        cp("r", r),
        cp("y", y),
        cp("e", e),
        slice(start, c["b"]),
        mc.evaluator("AICc" if c["share"] == "ev" else "AIC"),
        [pf2],
    )
    s1, s2 = state(m1), state(m2)
    good = start == c["border"] and c["share"] == "all"
    try:
        j = ModelCluster.join_adjacent(*((m2, m1) if c["swap"] else (m1, m2)))
    except ValueError:
        check(not good, "joining neighbours was refused")
        note("refused")
        return False
    check(good, "clusters which are not neighbours, or do not share their data, were joined")
    check(state(m1) == s1 and state(m2) == s2, "joining changed the clusters")
    check((j.slice.start, j.slice.stop) == (c["a"], c["b"]), "the joint range is %s", j.slice)
    check(j.r_data is r and j.y_data is y and j.y_error is e, "the data are no longer shared")
    check(set(j.peak_funcs) == {pf, pf2}, "peak functions %s", j.peak_funcs)
    check(j.baseline == m1.baseline and j.error_method is m1.error_method, "baseline or evaluator")
    border = 0.5 * (r[c["border"] - 1] + r[c["border"]])
    pos = [float(p["position"]) for p in j.model]
    check(all(a <= b + 0.2 for a, b in zip(pos, pos[1:])), "joint peaks are not in order: %s", pos)
    lpos, rpos = [p["pos"] for p in c["left"]], [p["pos"] for p in c["right"]]
    # rescaling keeps the maxima in place (for Gaussian/r, not the position parameter)
    maxima = [ref.maxat(c["kind"], *p.owner().transform_parameters(p.pars, "internal", "pwa")[:2]) for p in j.model]
    sides = [[ref.maxat(c["kind"], p["pos"], p["width"]) for p in c[k]] for k in ("left", "right")]
    own = [q for p, q in zip(lpos, sides[0]) if p < border] + [q for p, q in zip(rpos, sides[1]) if p > border]
    for p in own:
        check(any(abs(p - q) < 1e-6 for q in maxima), "peak with maximum at %r was lost: %s", p, maxima)
    for p in maxima:
        check(any(abs(p - q) < 1e-6 for q in sides[0] + sides[1]), "peak with maximum at %r appeared", p)
    check(len(pos) <= len(lpos) + len(rpos), "joining added peaks")
    if lpos and rpos:
        crossed = max(lpos) > min(rpos)
        if not crossed:
            check(len(pos) == len(lpos) + len(rpos) or border in lpos + rpos, "peaks in order were removed: %s", pos)
        bx = np.array([border])
        by = 0.5 * (y[c["border"] - 1] + y[c["border"]])
        before = sum(float(p.value(bx)[0]) for p in list(m1.model) + list(m2.model))
        after = float(j.model.value(bx)[0])
        if len(set(pos)) == len(pos) and len(pos) == len(lpos) + len(rpos):
            # (peaks lower than the data may be raised to it)
            check(before < by or after <= before * (1 + 1e-6), "joining raised the border from %r to %r (data %r)", before, after, by)
    else:
        check([q[0] for q in state(j)[0]] == [q[0] for q in (s1[0] or s2[0])], "joining with an empty model changed the peaks")
    check(isinstance(j.model, Peaks), "joint model is a %s", type(j.model))
    return bool(lpos) and bool(rpos)
