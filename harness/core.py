"""Laws: executable properties over JSON cases.

A law is a plain function ``law(case, note)``.  ``case`` is JSON data drawn from the law's
Hypothesis strategy (every random choice is inside the strategy), so that a failing case is
saved as a plain replay file and re-run without Hypothesis.  The law raises on violation and
returns whether the case was non-trivial by the law's stated rule; ``note(label)`` counts
classes of cases for the evidence file.
"""


class Law:
    def __init__(self, fn, strategy, quick, thorough, rule, known=None):
        self.fn = fn
        self.name = fn.__name__
        self.strategy = strategy
        self.quick = quick
        self.thorough = thorough
        self.rule = rule


class LawSet:
    def __init__(self, prop, assumptions=()):
        self.prop = prop
        self.laws = []
        self.assumptions = list(assumptions)

    def law(self, strategy, quick, rule, thorough=None):
        """Register a law.  ``strategy`` is a zero-argument function returning a strategy."""

        def deco(fn):
            self.laws.append(Law(fn, strategy, quick, thorough or quick * 36, rule))
            return fn

        return deco


class Violation(AssertionError):
    """The property does not hold on this case."""


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)
