"""Model parts: parameters, fixed and free, copies, collections, text form."""

import numpy as np
from hypothesis import strategies as st

from diffpy.srmise.basefunction import BaseFunction
from diffpy.srmise.baselines.base import Baseline
from diffpy.srmise.baselines.nanospherical import NanoSpherical
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.modelparts import ModelParts
from diffpy.srmise.peaks.base import Peak, PeakFunction, Peaks
from diffpy.srmise.peaks.terminationripples import TerminationRipples
from diffpy.srmise.srmiseerrors import SrMiseDataFormatError, SrMiseStaticOwnerError
from harness import gen, ref
from harness.core import LawSet, check

LAWS = LawSet("C10", assumptions=["parameters are finite numbers"])

NUM = gen.floats(-50, 50)


def owners():
    return [ref.make_pf("R", 0.7), ref.make_pf("G", 2.0), NanoSpherical(), Polynomial(-1), Polynomial(2), ref.make_pf("R", 2.0)]


NPARS = [3, 3, 2, 0, 3, 3]
KEYS = [["position", "width", "area"]] * 2 + [["scale", "radius"], [], ["a_2", "a_1", "a_0"], ["position", "width", "area"]]


@st.composite
def spec(draw, which=(0, 1, 2, 3, 4, 5)):
    o = draw(st.sampled_from(which))
    n = NPARS[o]
    ints = draw(st.integers(0, 4)) == 0
    return {
        "owner": o,
        "pars": draw(st.lists(st.integers(1, 9) if ints else NUM, min_size=n, max_size=n)),
        "free": draw(st.one_of(st.none(), st.lists(st.booleans(), min_size=n, max_size=n))),
        "removable": draw(st.booleans()),
        "static": draw(st.booleans()),
    }


class Shadow:
    """What a part should be."""

    def __init__(self, s):
        self.owner, self.pars = s["owner"], [float(v) for v in s["pars"]]
        self.free = list(s["free"]) if s["free"] is not None else [True] * len(self.pars)
        self.removable, self.static = s["removable"], s["static"]

    def copy(self):
        c = Shadow.__new__(Shadow)
        c.owner, c.pars, c.free, c.removable, c.static = self.owner, list(self.pars), list(self.free), self.removable, self.static
        return c


def make(s, own):
    cls = Baseline if s["owner"] in (2, 3, 4) else Peak
    return cls(own[s["owner"]], s["pars"], free=s["free"], removable=s["removable"], static_owner=s["static"])


def same(p, m, own, what=""):
    check(p.owner() is own[m.owner], "%s: another owner", what)
    check([float(v) for v in p.pars] == m.pars, "%s: parameters %s, expected %s", what, p.pars, m.pars)
    check([bool(v) for v in p.free] == m.free, "%s: free %s, expected %s", what, p.free, m.free)
    check(bool(p.removable) == m.removable and bool(p.static_owner) == m.static, "%s: removable or static changed", what)
    check(len(p) == len(m.pars) == p.npars() and p.npars(count_fixed=False) == sum(m.free), "%s: counts of parameters", what)
    check([float(v) for v in p.compress()] == [v for v, f in zip(m.pars, m.free) if f], "%s: free parameters %s", what, p.compress())
    for i, k in enumerate(KEYS[m.owner]):
        check(p[k] == m.pars[i] == p[i] and bool(p.getfree(k)) == m.free[i] == bool(p.getfree(i)), "%s: parameter %r", what, k)


OP = st.one_of(
    st.tuples(st.just("setfree"), st.integers(0, 9), st.integers(0, 2), st.booleans(), st.booleans()),
    st.tuples(st.just("pack"), st.lists(NUM, min_size=15, max_size=15), st.integers(0, 3)),
    st.tuples(st.just("update"), st.integers(0, 9), st.lists(NUM, min_size=4, max_size=4)),
    st.tuples(st.just("copy"), st.booleans()),
    st.tuples(st.just("owner"), st.integers(0, 9), st.integers(0, 5)),
    st.tuples(st.just("slice"), st.integers(0, 4), st.integers(0, 6), st.booleans()),
    st.tuples(st.just("nan"), st.lists(NUM, min_size=15, max_size=15), st.integers(0, 14)),
    st.tuples(st.just("delete"), st.integers(0, 9)),
    st.tuples(st.just("text"), st.integers(0, 9)),
).map(list)


@st.composite
def history(draw):
    parts = draw(st.one_of(st.lists(spec(), max_size=4), st.lists(spec((0, 1, 2, 4)), min_size=2, max_size=6)))
    return {"parts": parts, "ops": draw(st.one_of(st.lists(OP, max_size=4), st.lists(OP, min_size=4, max_size=16)))}


@LAWS.law(history, quick=1200, rule="non-trivial: >= 3 operations on parts with both fixed and free parameters")
def collection(c, note):
    """Through any history of operations a collection agrees with a model of lists of values and flags; copies are independent; text is read back."""
    own = owners()
    parts = ModelParts([make(s, own) for s in c["parts"]])
    model = [Shadow(s) for s in c["parts"]]
    old = []
    count = 0
    fl = [f for m in model for f in m.free]
    mixed = any(fl) and not all(fl)
    for op in c["ops"]:
        n = len(model)
        k = op[1] % n if n and isinstance(op[1], int) and not isinstance(op[1], bool) else 0
        if op[0] == "setfree" and n and model[k].pars:
            i = op[2] % len(model[k].pars)
            parts[k].setfree(KEYS[model[k].owner][i] if op[4] else i, op[3])
            model[k].free[i] = op[3]
        elif op[0] == "pack":
            need = sum(sum(m.free) for m in model)
            vals = (op[1] * 3)[: need + op[2]]
            parts.pack_freepars(np.array(vals))
            it = iter(vals)
            for m in model:
                for i, f in enumerate(m.free):
                    if f:
                        m.pars[i] = next(it)
        elif op[0] == "update" and n:
            nf = sum(model[k].free)
            check(parts[k].update(np.array(op[2])) == nf, "number of updated parameters")
            it = iter(op[2])
            for i, f in enumerate(model[k].free):
                if f:
                    model[k].pars[i] = next(it)
        elif op[0] == "copy":
            dup = parts.copy()
            check(type(dup) is type(parts) and len(dup) == n, "copy of another type or length")
            for p, q in zip(parts, dup):
                check(p == q and not (p != q) and p is not q, "a copy differs from its original")
            old.append((parts, [m.copy() for m in model]) if op[1] else (dup, [m.copy() for m in model]))
            if op[1]:
                parts = dup
        elif op[0] == "owner" and n:
            new = op[2]
            ok = not (model[k].static and new != model[k].owner) and NPARS[new] == NPARS[model[k].owner]
            try:
                parts[k].changeowner(own[new])
            except SrMiseStaticOwnerError:
                check(not ok, "a permitted change of owner was refused")
            else:
                check(ok, "the owner of a part with static owner, or of other parameters, was changed")
                model[k].owner = new
        elif op[0] == "slice":
            a, b = op[1], op[2]
            parts = parts[a:b] if op[3] else parts[a, b]
            check(type(parts) is ModelParts, "a slice is no collection")
            model = model[a:b]
        elif op[0] == "nan":
            need = sum(sum(m.free) for m in model)
            if need:
                vals = np.array((op[1] * 3)[:need])
                vals[op[2] % need] = np.nan
                try:
                    parts.pack_freepars(vals)
                except ValueError:
                    pass
                else:
                    check(False, "free parameters which are not numbers were accepted")
        elif op[0] == "delete" and n:
            del parts[k]
            del model[k]
        elif op[0] == "text" and n:
            p = parts[k]
            q = type(p).factory(p.writestr(own), own)
            same(q, model[k], own, "read back from text")
            check(q == p and type(q) is type(p), "the part read back from text differs")
        else:
            continue
        count += 1
        check(len(parts) == len(model), "%d parts, expected %d", len(parts), len(model))
        for p, m in zip(parts, model):
            same(p, m, own, "after %s" % op[0])
        check(parts.npars() == sum(len(m.pars) for m in model), "total number of parameters")
        check(parts.npars(count_fixed=False) == sum(sum(m.free) for m in model), "total number of free parameters")
        if model:
            free = [v for m in model for v, f in zip(m.pars, m.free) if f]
            check([float(v) for v in parts.unpack_freepars()] == free, "free parameters %s, expected %s", parts.unpack_freepars(), free)
    for ps, ms in old:
        for p, m in zip(ps, ms):
            same(p, m, own, "independent copy")
    return count >= 3 and mixed


@LAWS.law(
    lambda: st.fixed_dictionaries({"a": spec(), "b": spec(), "mode": st.sampled_from(["same", "pars", "free", "turn", "removable", "owner", "other"]), "i": st.integers(0, 2)}),
    quick=500,
    rule="non-trivial: the two parts differ in exactly one respect",
)
def equality(c, note):
    """Parts are equal exactly when owner, parameters, fixed flags and removability are."""
    own = owners()
    a = make(c["a"], own)
    s = dict(c["a"])
    n = len(s["pars"])
    differ = True
    if c["mode"] == "pars" and n:
        s["pars"] = list(s["pars"])
        s["pars"][c["i"] % n] += 1e-9 * max(1.0, abs(s["pars"][c["i"] % n]))
    elif c["mode"] == "free" and n:
        f = list(s["free"] or [True] * n)
        f[c["i"] % n] = not f[c["i"] % n]
        s["free"] = f
    elif c["mode"] == "turn" and n:
        # as many fixed parameters, but others
        f = list(s["free"] or [i != c["i"] % n for i in range(n)])
        a = make(dict(s, free=f), own)
        s["free"] = f[1:] + f[:1]
        differ = s["free"] != f
    elif c["mode"] == "removable":
        s["removable"] = not s["removable"]
    elif c["mode"] == "owner" and n == 3:
        s["owner"] = {0: 1, 1: 5, 5: 0, 4: 0}[s["owner"]]
    elif c["mode"] == "other":
        s = c["b"]
        full = lambda t: (t["owner"], [float(v) for v in t["pars"]], t["free"] or [True] * len(t["pars"]), t["removable"])
        differ = full(s) != full(c["a"])
    else:
        differ = False
    b = make(s, own)
    check((a == b) == (not differ) and (a != b) == differ, "%s and %s compare as %s", c["a"], s, a == b)
    check(a == a.copy() and not (a == 3) and a != "x", "a part and its copy, or something else")
    note(c["mode"])
    return differ and c["mode"] != "other"


@LAWS.law(
    lambda: st.fixed_dictionaries(
        {"peaks": st.one_of(st.lists(spec((0, 1, 5)), max_size=3), st.lists(spec((0, 1, 5)), min_size=3, max_size=9)), "key": st.sampled_from(["position", "width", "area"]), "pre": st.booleans()}
    ),
    quick=400,
    rule="non-trivial: >= 3 peaks, not in order",
)
def sorting(c, note):
    """Peaks are sorted by any parameter, keeping every peak."""
    own = owners()
    pks = Peaks([make(s, own) for s in c["peaks"]])
    if c["pre"]:
        pks.sort(key=c["key"])
    ids = [id(p) for p in pks]
    vals = [p[c["key"]] for p in pks]
    order = [int(i) for i in pks.argsort(key=c["key"])]
    check(sorted(order) == list(range(len(vals))), "no permutation: %s", order)
    check([vals[i] for i in order] == sorted(vals), "order %s of %s", order, vals)
    if c["key"] == "position" and len(vals):
        check([vals[i] for i in pks.argsort()] == sorted(vals), "default order is not by position")
    check([id(p) for p in pks] == ids, "finding the order changed the peaks")
    pks.sort(key=c["key"])
    check(type(pks) is Peaks and sorted(id(p) for p in pks) == sorted(ids), "sorting lost or changed peaks")
    check([p[c["key"]] for p in pks] == sorted(vals), "sorted by %s: %s", c["key"], [p[c["key"]] for p in pks])
    return len(vals) >= 3 and vals != sorted(vals)


@st.composite
def funcs(draw):
    """Functions, each but the first few possibly built on an earlier one; asked for in any order, possibly without their bases."""
    n = draw(st.integers(1, 5))
    fs = []
    for i in range(n):
        kind = draw(st.sampled_from(["G", "R", "T", "T", "T", "T"])) if i > 1 else draw(st.sampled_from(["G", "R"]))
        f = {"kind": kind, "width": draw(gen.floats(0.2, 3.0)), "qmax": draw(gen.floats(3.0, 30.0)), "base": draw(st.integers(0, i - 1)) if i else 0}
        f["extension"] = draw(st.sampled_from([4.0, 2.0, 5.5]))
        f["supersample"] = draw(st.sampled_from([5.0, 3.0, 8.0]))
        fs.append(f)
    pick = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=6))
    return {"fs": fs, "pick": pick, "over": draw(st.integers(0, 2))}


@LAWS.law(funcs, quick=400, rule="non-trivial: a function whose base has a base, or whose base is not the first of its type")
def functions(c, note):
    """Lists of functions name every base before it is needed, and functions written to text are rebuilt on the same bases."""
    fs = []
    for f in c["fs"]:
        if f["kind"] == "T":
            fs.append(TerminationRipples(fs[f["base"]], f["qmax"], f["extension"], f["supersample"]))
        else:
            fs.append(ref.make_pf(f["kind"], f["width"]))
    pick = [fs[i] for i in c["pick"]]
    out = BaseFunction.safefunctionlist(list(pick))
    ids = [id(f) for f in out]
    need = set()
    for f in pick:
        while f is not None:
            need.add(id(f))
            f = f.base
    check(len(set(ids)) == len(ids) and set(ids) == need, "%d functions listed, expected %d", len(ids), len(need))
    for f in out:
        check(f.base is None or ids.index(id(f.base)) < ids.index(id(f)), "a base comes after the function built on it")
    back = []
    for f in out:
        g = BaseFunction.factory(f.writestr(out), back)
        back.append(g)
        check(type(g) is type(f) and (g.base is None) == (f.base is None), "rebuilt as %s", type(g))
        check(g.base is None or g.base is back[ids.index(id(f.base))], "rebuilt on another base")
        check({k: v[0] for k, v in g.metadict.items()} == {k: v[0] for k, v in f.metadict.items()}, "options %s, expected %s", g.metadict, f.metadict)
        r = np.arange(2.0, 4.0, 0.05)
        p, q = (x.actualize([3.0, 0.15, 2.0], "pwa") for x in (f, g))
        check(np.array_equal(p.value(r), q.value(r)), "the rebuilt function has other values")
    text = out[0].writestr(out).split("\n")
    for broken in ("(", "", "no_such_name", "1 2"):
        k, v = text[3].split("=", 1)
        try:
            BaseFunction.factory("\n".join(text[:3] + ["%s=%s" % (k, broken)] + text[4:]), [])
        except SrMiseDataFormatError:
            continue
        check(False, "a function with the option %s=%s was read", k, broken)
    first = {}
    deep = False
    for f in out:
        first.setdefault(type(f), f)
        if f.base is not None:
            deep = deep or f.base.base is not None or first[type(f.base)] is not f.base
            short = [g for g in out if g is not f.base]
            try:
                f.writestr(short)
            except ValueError:
                pass
            else:
                check(False, "written without its base")
            text = f.writestr(out)
            try:
                BaseFunction.factory(text, back[: ids.index(id(f.base))][: -c["over"] or None])
            except ValueError:
                pass
            else:
                check(False, "rebuilt without its base")
    return deep


BAD = ["owner", "pars", "free", "eval", "noequal", "key"]


@LAWS.law(
    lambda: st.fixed_dictionaries({"s": spec(), "bad": st.sampled_from(BAD), "k": st.integers(0, 4)}),
    quick=300,
    rule="every case: a description of no part",
)
def malformed(c, note):
    """Text which does not describe a part of the given owners is refused."""
    own = owners()
    p = make(c["s"], own)
    lines = p.writestr(own).splitlines()
    want = (SrMiseDataFormatError, ValueError)
    short = own
    if c["bad"] == "owner":
        short = own[: c["s"]["owner"]][: max(0, c["s"]["owner"] - c["k"])]
        lines[0] = "owner=%d" % c["s"]["owner"]
    elif c["bad"] == "pars":
        lines[1] = "pars=%r" % ([1.0] * (len(c["s"]["pars"]) + 1 + c["k"]))
    elif c["bad"] == "free":
        lines[2] = "free=%r" % ([True] * (len(c["s"]["pars"]) + 1 + c["k"]))
    elif c["bad"] == "eval":
        i = c["k"] % len(lines)
        lines[i] = lines[i].split("=")[0] + "=[1.0,"
        want = SrMiseDataFormatError
    elif c["bad"] == "noequal":
        i = c["k"] % len(lines)
        lines[i] = lines[i].replace("=", ":")
        want = SrMiseDataFormatError
    elif c["bad"] == "key":
        lines.append("nonsense=3")
        want = TypeError
    try:
        type(p).factory("\n".join(lines), short)
    except want:
        note(c["bad"])
        return True
    check(False, "read from malformed text %s", lines)


@LAWS.law(lambda: spec(), quick=200, rule="non-trivial: >= 1 parameter")
def arguments(c, note):
    """Parts with the wrong number of parameters or flags cannot be made; their inputs stay independent."""
    own = owners()
    n = len(c["pars"])
    for bad in (dict(c, pars=c["pars"] + [1.0]), dict(c, free=[True] * (n + 1)), dict(c, pars=c["pars"][:-1]) if n else dict(c, pars=[0.0])):
        try:
            make(bad, own)
        except ValueError:
            continue
        check(False, "part made of %s", bad)
    plain = own[c["owner"]].actualize(list(c["pars"]))
    isbase = c["owner"] in (2, 3, 4)
    check(isinstance(plain, Baseline if isbase else Peak) and plain.removable is (not isbase) and plain.static_owner is False, "a part of %s by default is removable: %s", plain.owner(), plain.removable)
    check(all(plain.free) and len(plain.free) == n, "by default free are %s", plain.free)
    pars, free = np.array(c["pars"], dtype=float), np.array([True] * n)
    p = (Baseline if c["owner"] in (2, 3, 4) else Peak)(own[c["owner"]], pars, free=free)
    p.update(np.arange(20.0) + 100)
    check(np.array_equal(pars, np.array(c["pars"], dtype=float)), "updating a part changed the sequence it was made of")
    for i in range(n):
        p.setfree(i, False)
    check(np.all(free), "fixing a parameter changed the sequence given")
    q = p.copy()
    p.update(np.arange(20.0))
    check(p == q, "parameters which are all fixed were updated")
    return n > 0


class Mine(BaseFunction):
    """A function of one's own: the sum of its parameters, each times its index plus r."""

    def __init__(self, names, formats, defaults, base=None):
        BaseFunction.__init__(self, names, formats, defaults, {"names": (names, repr), "formats": (formats, repr), "defaults": (defaults, repr)}, base)

    def _valueraw(self, pars, r):
        return sum((v * (i + r) for i, v in enumerate(pars)), 0.0 * r)

    def _jacobianraw(self, pars, r, free):
        return [(i + r) if f else None for i, f in enumerate(free)]

    def _transform_parametersraw(self, pars, in_format, out_format):
        return np.array(pars, dtype=float) * {"internal": 1.0, "double": 2.0}[out_format] / {"internal": 1.0, "double": 2.0}[in_format]

    def getmodule(self):
        return __name__


@st.composite
def definition(draw):
    n = draw(st.integers(0, 4))
    index = draw(st.permutations(list(range(n))))
    bad = draw(st.sampled_from([None, None, None, "key", "gap", "twice", "negative", "no input", "no output", "other", "third"]))
    return {"index": index, "bad": bad, "at": draw(st.integers(0, 3)), "pars": draw(st.lists(NUM, min_size=n, max_size=n)), "free": draw(st.lists(st.booleans(), min_size=n, max_size=n)), "in": draw(st.sampled_from(["internal", "double"])), "out": draw(st.sampled_from(["internal", "double"]))}


@LAWS.law(definition, quick=400, rule="non-trivial: >= 2 parameters named in another order than they are held, or a malformed definition")
def definitions(c, note):
    """Functions of one's own name each parameter once and have known default formats, or are refused; parts are evaluated by their own function only."""
    n = len(c["index"])
    names = {"p%d" % i: k for i, k in enumerate(c["index"])}
    formats, defaults = ["internal", "double"], {"default_input": c["in"], "default_output": c["out"]}
    bad, at = c["bad"], "p%d" % (c["at"] % max(n, 1))
    if n == 0 and bad in ("gap", "twice", "negative", "key"):
        bad = None
    if bad == "twice" and n == 1:
        bad = "gap"
    if bad == "key":
        names[c["at"]] = names.pop(at)
    elif bad == "gap":
        names[at] = n
    elif bad == "negative":
        names[at] = -1
    elif bad == "twice":
        names[at] = names[[k for k in names if k != at][0]]
    elif bad == "no input":
        del defaults["default_input"]
    elif bad == "no output":
        del defaults["default_output"]
    elif bad == "other":
        defaults["default_output" if c["at"] % 2 else "default_input"] = "triple"
    elif bad == "third":
        defaults["default_scale"] = "triple"
    try:
        f = Mine(names, formats, defaults)
    except ValueError:
        check(bad is not None, "the definition %s, %s was refused", names, defaults)
        note(bad)
        return True
    check(bad is None, "accepted: names %s, default formats %s", names, defaults)
    g = Mine(dict(names), list(formats), dict(defaults))
    r = np.arange(1.0, 5.0)
    part, twin = (Peak(x, list(c["pars"]), free=list(c["free"])) for x in (f, g))
    for i, k in enumerate(c["index"]):
        check(part["p%d" % i] == c["pars"][k] and part.getfree("p%d" % i) == c["free"][k], "p%d is %r", i, part["p%d" % i])
    want = sum((v * (i + r) for i, v in enumerate(c["pars"])), 0.0 * r)
    check(ref.close(part.value(r), want, 1e-12, 1e-12), "values %s, expected %s", part.value(r), want)
    jac = part.jacobian(r)
    check([j is None for j in jac] == [not v for v in c["free"]], "derivatives of %s", c["free"])
    scale = {"internal": 1.0, "double": 2.0}
    got = f.transform_parameters(list(c["pars"]))
    check(ref.close(got, np.array(c["pars"]) * scale[c["out"]] / scale[c["in"]], 1e-12), "%s converted by default to %s", c["pars"], got)
    for act in (lambda: f.value(twin, r), lambda: g.jacobian(part, r), lambda: f.value(twin, 2.0), lambda: g.jacobian(part, r, slice(1, 2))):
        try:
            act()
        except ValueError:
            continue
        check(False, "a part was evaluated by the function of another")
    for p in (part, Baseline(f, list(c["pars"]))):
        for lst in ([], [g], [h for h in owners()]):
            try:
                p.writestr(lst)
            except ValueError:
                continue
            check(False, "a part was written without its function")
    base = ref.make_pf("G", 0.7)
    rip = [TerminationRipples(base, q) for q in (10.0, 20.0)]
    pks = [x.actualize([3.0, 0.3, 1.0], "pwa") for x in rip] + [base.actualize([3.0, 0.3, 1.0], "pwa")]
    for x in rip + [base]:
        for p in pks:
            for act in (x.value, x.jacobian):
                for at in (r, 2.0):
                    try:
                        act(p, at)
                    except ValueError:
                        check(p.owner() is not x, "a peak is not evaluated by its own function")
                    else:
                        check(p.owner() is x, "a peak with ripples was evaluated by the function of another")
    peaky = dict(names)
    if c["at"] % 2:
        peaky["position"] = n
    try:
        PeakFunction(peaky, formats, defaults, {})
    except ValueError:
        check("position" not in peaky, "a peak function with %s was refused", peaky)
    else:
        check("position" in peaky, "a peak function without position was accepted")
    h = BaseFunction.factory(f.writestr([f]), [f])
    check(type(h) is Mine and h.parameterdict == names and h.default_formats == defaults, "read from text as %s, %s", h.parameterdict, h.default_formats)
    return n >= 2 and list(c["index"]) != sorted(c["index"])
