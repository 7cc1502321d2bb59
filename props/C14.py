"""Quality of models: Akaike's criteria, their comparison, and probabilities."""

import itertools
import operator

import numpy as np
from hypothesis import strategies as st

from diffpy.srmise.modelevaluators.base import ModelEvaluator
from diffpy.srmise.srmiseerrors import SrMiseModelEvaluatorError
from harness import gen, mc, ref
from harness.core import LawSet, check

LAWS = LawSet("C14", assumptions=["uncertainties of the data are positive"])


@st.composite
def case(draw):
    c = draw(mc.cluster((0, 4)))
    c["kshift"] = draw(st.integers(-14, 14))
    c["count"] = draw(st.booleans())
    c["kprime"] = draw(st.integers(0, 40))
    n = c["grid"]["n"]
    if draw(st.booleans()):
        a = draw(st.integers(0, n - 2))
        c["slice"] = [a, draw(st.integers(a + 1, min(n, a + 16)))]
    c["edge"] = draw(st.one_of(st.none(), st.integers(-1, 2)))
    c["scale"] = draw(st.sampled_from([1.0, 2.0, 10.0]))
    return c


@LAWS.law(case, quick=800, rule="non-trivial: >= 1 free parameter")
def value(c, note):
    """The criterion is chi-square plus the documented penalty, in terms of free (or all) parameters and points in range."""
    m, pf, r, y, e = mc.make(c)
    if c["edge"] is not None:
        # about as many parameters as the points allow, and a misfit which would pay for them
        c = dict(c, kprime=max(0, m.size - 2 - c["edge"] - sum(sum(map(bool, p.free)) for p in m.model)))
        e *= 1e-3
    # errors that vary
    e *= 1 + 0.5 * np.sin(3 * r) ** 2 * (c["scale"] - 1)
    m.change_slice(m.slice)
    ev = mc.evaluator(c["eval"])
    k = sum(len(p) if c["count"] else sum(map(bool, p.free)) for p in m.model)
    try:
        q = ev()
        got = q.evaluate(m, count_fixed=c["count"], kshift=c["kshift"])
        check(k + c["kshift"] >= 0, "a negative number of parameters was evaluated")
    except SrMiseModelEvaluatorError:
        check(k + c["kshift"] < 0, "evaluation with %d parameters was refused", k + c["kshift"])
        note("refused")
        return False
    want = mc.stat(m, c["eval"], c["count"], c["kshift"])
    check(got == q.stat and ref.close(got, want, 1e-9), "%s of %d parameters and %d points is %r, expected %r", c["eval"], k, m.size, got, want)
    q2 = m.quality(count_fixed=c["count"], kshift=c["kshift"])
    check(type(q2) is ev and q2.stat == got, "quality %r, evaluated %r", q2.stat, got)
    other = mc.evaluator("AIC" if c["eval"] == "AICc" else "AICc")
    q3 = m.quality(other)
    check(type(q3) is other and ref.close(q3.stat, mc.stat(m, "AIC" if c["eval"] == "AICc" else "AICc"), 1e-9), "other criterion %r", q3.stat)
    v = np.zeros(m.size) + sum((p.value(np.array(m.r_cluster)) for p in m.model), np.zeros(m.size))
    if m.baseline is not None:
        v = v + m.baseline.value(np.array(m.r_cluster))
    chi = float(np.sum(((m.y_cluster - v) / m.error_cluster) ** 2))
    check(ref.close(q.chisq, chi, 1e-9), "chi-square %r, expected %r", q.chisq, chi)
    free = sum(sum(map(bool, p.free)) for p in m.model)
    more = free + c["kprime"]
    need = 1 if c["eval"] == "AIC" else more + 2
    cost = mc.penalty(c["eval"], more, m.size) - mc.penalty(c["eval"], free, m.size)
    if abs(cost - chi) > 1e-6 * (1 + abs(chi)):
        for inst in (q, ev()):
            check(
                bool(inst.growth_justified(m, c["kprime"])) == (m.size >= need and cost < chi),
                "%d more parameters at %d points (chi-square %r, cost %r): %s",
                c["kprime"],
                m.size,
                chi,
                cost,
                inst.growth_justified(m, c["kprime"]),
            )
        note("justified" if m.size >= need and cost < chi else "not justified")
    return free > 0


STATS = st.lists(st.one_of(gen.floats(-50, 50), st.sampled_from([0.0, 1.0, 1e5, -1e5])), min_size=1, max_size=7)


@LAWS.law(
    lambda: st.fixed_dictionaries({"eval": st.sampled_from(["AIC", "AICc"]), "stats": STATS, "shift": gen.floats(-1000, 1000)}),
    quick=500,
    rule="non-trivial: >= 2 different values",
)
def compare(c, note):
    """Better models are greater; probabilities are normalised, ordered as the models, and depend on differences only."""
    cls = mc.evaluator(c["eval"])
    evs = []
    for s in c["stats"]:
        q = cls()
        q.stat = s
        evs.append(q)
    for a, b in itertools.product(evs, evs):
        # a smaller criterion is a better model
        check(bool(a > b) == (a.stat < b.stat), "%r > %r is %s", a.stat, b.stat, a > b)
        check(bool(a < b) == (a.stat > b.stat), "%r < %r is %s", a.stat, b.stat, a < b)
        check(bool(a >= b) == (a.stat <= b.stat), "%r >= %r is %s", a.stat, b.stat, a >= b)
        check(bool(a <= b) == (a.stat >= b.stat), "%r <= %r is %s", a.stat, b.stat, a <= b)
        check(bool(a == b) == (a.stat == b.stat) and bool(a != b) == (a.stat != b.stat), "%r == %r is %s", a.stat, b.stat, a == b)
    order = np.array(evs, dtype=object).argsort()
    check(evs[order[-1]].stat == min(c["stats"]), "the best of %s is %r", c["stats"], evs[order[-1]].stat)
    check(max(evs).stat == min(c["stats"]), "max is %r", max(evs).stat)
    s = np.array(c["stats"])
    w = np.exp(-(s - s.min()) / 2)
    check(np.allclose(cls.akaikeweights(evs), w, rtol=1e-12, atol=0), "weights %s", cls.akaikeweights(evs))
    p = cls.akaikeprobs(evs)
    check(np.allclose(p, w / w.sum(), rtol=1e-12, atol=0) and abs(np.sum(p) - 1) < 1e-12, "probabilities %s of %s", p, s)
    for q in evs:
        q.stat += c["shift"]
    check(np.allclose(cls.akaikeprobs(evs), p, rtol=1e-6, atol=1e-12), "probabilities change with a common shift")
    a, b = mc.evaluator("AIC")(), mc.evaluator("AICc")()
    a.stat, b.stat = 1.0, 2.0
    for bad in (lambda: a > b, lambda: b <= a, lambda: a == b, lambda: cls() > evs[0]):
        try:
            bad()
        except Exception:
            continue
        check(False, "criteria of different kinds, or without value, were compared")
    return len(set(c["stats"])) > 1


OPS = ["lt", "le", "gt", "ge", "eq", "ne"]


@LAWS.law(
    lambda: st.fixed_dictionaries(
        {
            "higher": st.booleans(),
            "a": st.one_of(gen.floats(-50, 50), st.integers(-2, 2)),
            "b": st.one_of(st.none(), gen.floats(-50, 50), st.integers(-2, 2)),
            "same": st.sampled_from([True, True, True, False]),
            "exp": st.lists(gen.floats(-9, 9), min_size=1, max_size=6),
        }
    ),
    quick=400,
    rule="non-trivial: comparable values of a criterion of which more is better",
)
def direction(c, note):
    """Criteria of one's own, of which more or less is better, compare so that the better is greater; others are not compared."""
    a, b = ModelEvaluator("mine", c["higher"]), ModelEvaluator("mine" if c["same"] else "other", c["higher"])
    a.stat, b.stat = c["a"], c["b"]
    ok = c["same"] and c["b"] is not None
    for x, y in ((a, b), (b, a)):
        for op in OPS:
            try:
                got = bool(getattr(operator, op)(x, y))
            except AssertionError:
                check(not ok, "%r and %r of one kind were not compared by %s", x.stat, y.stat, op)
                continue
            check(ok, "%s of %r and %r was decided though %s", op, x.stat, y.stat, "one has no value" if c["same"] else "they are of different kinds")
            s, t = (x.stat, y.stat) if c["higher"] else (-x.stat, -y.stat)
            check(got == getattr(operator, op)(s, t), "%s of %r and %r, more being %s, is %s", op, x.stat, y.stat, "better" if c["higher"] else "worse", got)
    obs = np.array(c["exp"][::-1]) + 1
    err = 0.5 + np.arange(len(obs))
    chi = a.chi_squared(np.array(c["exp"]), obs, err)
    check(ref.close(chi, float(sum(((u - v) / w) ** 2 for u, v, w in zip(c["exp"], obs, err))), 1e-12) and a.chisq == chi, "chi-square %r", chi)
    note("more" if c["higher"] else "less")
    return ok and c["higher"]
