"""The summary of an extraction (.pwa file)."""

import os
import re

import numpy as np
from hypothesis import strategies as st

from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.srmiseerrors import SrMiseError
from harness import gen, mc, ref, session
from harness.core import LawSet, check

LAWS = LawSet("C22", assumptions=["the file name of the PDF has no line breaks (the summary is for people)"])

MODULES = {
    "Gaussian": "diffpy.srmise.peaks.gaussian",
    "GaussianOverR": "diffpy.srmise.peaks.gaussianoverr",
    "TerminationRipples": "diffpy.srmise.peaks.terminationripples",
    "Polynomial": "diffpy.srmise.baselines.polynomial",
    "NanoSpherical": "diffpy.srmise.baselines.nanospherical",
    "FromSequence": "diffpy.srmise.baselines.fromsequence",
}
COMMENTS = st.one_of(
    st.just("n/a"),
    st.just(""),
    st.lists(st.sampled_from(["plain words", "## Extracted Peaks", "1 2 3 # 0", "  indented", "qmax=99", "\u00c5ngstr\u00f6m", "# more"]), max_size=4).map("\n".join),
)


@st.composite
def summary(draw):
    c = draw(session.session())
    c["pdf"] = True
    if "meta" not in c:
        c["meta"] = {k: None for k in session.META}
        c["meta"].update(qmax=draw(gen.floats(0, 40)), nyquist=draw(st.booleans()), filename="/data/x y.gr")
    if c["meta"]["filename"] and "\n" in c["meta"]["filename"]:
        c["meta"]["filename"] = None
    n = c["grid"]["n"]
    if c["cres"] is None:
        c["cres"] = draw(gen.floats(0.01, 2))
    if c["edy"] is None:
        c["edy"] = draw(st.lists(gen.floats(0.01, 9), min_size=n, max_size=n))
    if c["result"] is None and draw(st.integers(0, 7)):
        m = draw(st.integers(4, 12))
        c["result"] = {
            "type": "extract",
            "grid": {"x0": 1.0, "dx": 0.1, "n": m},
            "y": draw(st.lists(session.NUM, min_size=m, max_size=m)),
            "e": draw(st.lists(gen.floats(0.01, 9), min_size=m, max_size=m)),
            "slice": None,
            "peaks": draw(session.PEAKLIST),
            "base": draw(st.one_of(st.none(), st.just("same"), session.BASE)),
            "basepars": draw(st.lists(session.NUM, min_size=3, max_size=3)),
            "eval": draw(st.sampled_from(["AIC", "AICc"])),
            "pf": draw(st.lists(st.integers(0, 2), max_size=3)),
        }
    c["comments"] = draw(COMMENTS)
    c["old"] = draw(st.booleans())
    return c


def sections(text):
    """Lines of the summary by their title."""
    out, name = {}, "head"
    for line in text.splitlines():
        m = re.match(r"##+ (.*)", line)
        if m:
            name = m.group(1)
            check(name not in out, "two sections %r", name)
            out[name] = []
        else:
            out.setdefault(name, []).append(line)
    return out


def functions(lines):
    """[(index, module, index of base or None)]"""
    out = []
    for line in lines:
        if not line.strip() or line.startswith("#"):
            continue
        m = re.fullmatch(r"(\d+) (\S+) *(?:\(base=(\d+)\))?", line.strip())
        check(m, "function %r", line)
        out.append((int(m.group(1)), m.group(2), None if m.group(3) is None else int(m.group(3))))
    check([f[0] for f in out] == list(range(len(out))), "indices of functions %s", out)
    return out


def isfn(listed, i, f):
    """The listed function is of the type of f, and so is its base."""
    i, module, base = listed[i]
    check(module == MODULES[type(f).__name__], "function %d is %s, expected %s", i, module, type(f).__name__)
    check((base is None) == (f.base is None), "base of function %d", i)
    if base is not None:
        isfn(listed, base, f.base)


@LAWS.law(summary, quick=250, rule="non-trivial: >= 1 peak in the summary")
def summaries(c, note):
    """The summary states the settings, the quality and every parameter of the result in natural units; without result there is none."""
    p = session.build(c)
    before = session.state(p, True)
    path = os.path.join(os.getcwd(), "summary.pwa")
    if os.path.exists(path):
        os.unlink(path)
    if c["old"]:
        with open(path, "w") as f:
            f.write("something else\n" * 500)
    if c["result"] is None:
        for f in (lambda: p.writepwastr(c["comments"]), lambda: p.writepwa(path, c["comments"])):
            try:
                f()
            except SrMiseError:
                continue
            raise AssertionError("a summary without extraction")
        check(os.path.exists(path) == c["old"], "a file is written without extraction")
        return False
    text = p.writepwastr(c["comments"])
    p.writepwa(path, c["comments"])
    with open(path) as f:
        check(f.read().splitlines()[2:] == text.splitlines()[2:], "the file differs from the text")
    os.unlink(path)
    d = session.diff(before, session.state(p, True), rtol=0)
    check(d is None, "writing a summary changed %s", d)
    # comments are kept, and are comments
    lines = text.splitlines()
    a, b = lines.index("##### User comments"), None
    want = ["# " + line for line in c["comments"].splitlines()]
    check(lines[a + 1 : a + 1 + len(want)] == want, "comments %s", lines[a + 1 : a + 1 + len(want)])
    b = a + 1 + len(want)
    check(lines[b].startswith("##### "), "after the comments: %r", lines[b])
    s = sections("\n".join(lines[b:]))
    meta = dict(line.split("=", 1) for line in s["PDF metadata"] if "=" in line)
    for k in session.META:
        v = c["meta"][k]
        if k == "filename":
            check(meta[k] == str(v), "filename %r", meta[k])
        elif v is None or isinstance(v, bool):
            check(meta[k] == repr(v), "%s is %r, expected %r", k, meta[k], v)
        else:
            check(repr(v) in meta[k] or float(meta[k]) == v, "%s is %r, expected %r", k, meta[k], v)
    ext = dict(line.split("=", 1) for line in s["Peak extraction metadata"] if "=" in line)
    check(ext["Range"] == repr(p.rng), "Range %r, expected %r", ext["Range"], p.rng)
    check(ref.close(float(ext["cres"]), c["cres"], 1e-5), "cres %r, expected %r", ext["cres"], c["cres"])
    m = re.fullmatch(r"(\S+) \(mean\)", ext["effective_dy"])
    check(m and ref.close(float(m.group(1)), np.mean(c["edy"]), 1e-9), "effective_dy %r, mean %r", ext["effective_dy"], np.mean(c["edy"]))
    # quality
    x = p.extracted
    q = "\n".join(s["Model Quality"])

    def value(label):
        m = re.search(r"^# %s: (\S+)$" % label, q, re.M)
        check(m, "no line %r in %r", label, q)
        return float(m.group(1))

    stat = mc.stat(x, c["result"]["eval"]) if x.size else None
    got = value("Quality reported by ModelEvaluator")
    enough = x.size > 1 + x.model.npars(count_fixed=True)
    if stat is not None and enough and np.isfinite(stat):
        check(ref.close(got, stat, 1e-6), "quality %r, expected %r", got, stat)
    check(got == x.quality().stat or got != got, "quality %r, model %r", got, x.quality().stat)
    free = sum(bool(v) for sp in c["result"]["peaks"] for v in sp["free"])
    check(value("Free parameters in extracted peaks") == free, "free parameters, expected %d", free)
    if p.baseline is not None and c["based"]:  # a function, of no parameters yet
        nb = p.baseline.npars
        note("baseline to be estimated")
    else:
        nb = 0 if p.baseline is None else sum(bool(v) for v in p.baseline.free)
    check(value("Free parameters in baseline") == nb, "free parameters of the baseline, expected %d", nb)
    check(value("Length of data in final fit") == len(x.r_data), "length of data, expected %d", len(x.r_data))
    check("ModelEvaluator=%s" % c["eval"] in q.splitlines(), "evaluator, expected %s", c["eval"])
    # baseline
    bfs = functions(s["Baseline Functions"])
    bwant = {id(f): f for f in [p.baseline if c["based"] or p.baseline is None else p.baseline.owner(), None if x.baseline is None else x.baseline.owner()] if f is not None}
    check(sorted(b[1] for b in bfs) == sorted(MODULES[type(f).__name__] for f in bwant.values()), "baseline functions %s, expected %s", bfs, list(bwant.values()))
    rows = [line for line in s["Baseline"] if line.strip() and not line.startswith("#")]
    if x.baseline is None:
        check(rows == ["None"], "baseline %s", rows)
    else:
        pars, _, i = rows[0].partition("#")
        want = [float(v) for v in x.baseline.pars]
        got = [] if "no parameters" in pars else [float(v) for v in pars.split()]
        check(len(rows) == 1 and got == want, "baseline %s, expected %s", rows, want)
        isfn(bfs, int(i), x.baseline.owner())
        if want:
            f = x.baseline.owner()
            labels = ["scale", "radius"] if type(f).__name__ == "NanoSpherical" else ["a_%d" % k for k in range(f.npars - 1, -1, -1)]
            line = s["Baseline"][s["Baseline"].index(rows[0]) - 1]
            check(line.lstrip("# ").split() == labels, "labels of the baseline %r, expected %s", line, labels)
    # peaks
    pfs = functions(s["Peak Functions"])
    wanted = list(p.pf or []) + [q.owner() for q in p.initial_peaks or []] + list(x.peak_funcs) + [q.owner() for q in x.model]
    for f in wanted:
        check(any(module == MODULES[type(f).__name__] for _, module, _ in pfs), "no %s among %s", f, pfs)
    everyone = {id(g): g for f in wanted for g in (f, f.base) if g is not None}
    shape = lambda fs, key, base, kind: sorted(  # noqa: E731
        (kind(f), "" if base(f) is None else kind(base(f)), sum(base(g) is not None and key(base(g)) == key(f) for g in fs)) for f in fs
    )
    row = {i: (i, module, b) for i, module, b in pfs}
    got = shape(pfs, lambda f: f[0], lambda f: None if f[2] is None else row[f[2]], lambda f: f[1])
    want = shape(list(everyone.values()), id, lambda f: f.base, lambda f: MODULES[type(f).__name__])
    check(got == want, "peak functions %s, expected %s", got, want)
    rows = [line for line in s["Extracted Peaks"] if line.strip() and not line.startswith("#")]
    check(s["Extracted Peaks"].count("#L position fwhm area") == 1, "no heading of the columns")
    check(len(rows) == len(x.model), "%d rows, %d peaks", len(rows), len(x.model))
    for row, sp, q in zip(rows, c["result"]["peaks"], x.model):
        vals, _, i = row.partition("#")
        got = [float(v) for v in vals.split()]
        spec = c["funcs"][sp["f"] % len(c["funcs"])]
        want = [sp["pars"][0], ref.fwhm_of(sp["pars"][1], spec["max"]), abs(sp["pars"][2])]
        check(len(got) == 3 and ref.close(got[0], want[0]) and abs(got[1] - want[1]) < 1e-7 * spec["max"] and ref.close(got[2], want[2]), "row %r, expected %s", row, want)
        isfn(pfs, int(i), q.owner())
    note("ripples" if any(f["ripple"] for f in c["funcs"]) else "plain")
    return len(rows) > 0
