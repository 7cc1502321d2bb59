"""The command line of peak extraction."""

import contextlib
import io
import os
import sys

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from diffpy.srmise import srmiselog
from diffpy.srmise.applications import extract as cli
from diffpy.srmise.baselines.fromsequence import FromSequence
from diffpy.srmise.baselines.nanospherical import NanoSpherical
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.peaks.terminationripples import TerminationRipples
from harness import gen, mc, session
from harness.core import LawSet, check

LAWS = LawSet(
    "C25",
    assumptions=[
        "at most one option for the baseline; options are not zero where zero is no sensible value (cres, supersample, dg)",
        "when a session file is given the uncertainty is that of the options or of their defaults, as in the implementation",
    ],
)

FUNCS = {
    "GaussianOverR(maxwidth=0.7)": lambda: GaussianOverR(0.7),
    "GaussianOverR(0.5)": lambda: GaussianOverR(0.5),
    "Gaussian(0.6)": lambda: Gaussian(0.6),
    "TerminationRipples(GaussianOverR(0.7), 20.0)": lambda: TerminationRipples(GaussianOverR(0.7), 20.0),
}
VERBOSITY = {"-i": 20, "--informative": 20, "-q": 30, "--quiet": 30, "-s": 50, "--silent": 50, "-v": 10, "--verbose": 10}
number = gen.floats(-3, 3)
par = st.tuples(number, st.booleans()).map(list)


@st.composite
def commands(draw):
    maybe = lambda s: draw(st.one_of(st.none(), s))  # noqa: E731
    base = draw(
        st.one_of(
            st.none(),
            st.tuples(st.just("bcrystal"), st.lists(par, min_size=1, max_size=1)),
            st.tuples(st.just("bpoly0"), st.lists(par, min_size=1, max_size=1)),
            st.tuples(st.just("bpoly1"), st.lists(par, min_size=2, max_size=2)),
            st.tuples(st.just("bpoly2"), st.lists(par, min_size=3, max_size=3)),
            st.tuples(st.just("bspherical"), st.lists(par, min_size=2, max_size=2)),
            st.tuples(st.just("bseq"), st.just([])),
            st.tuples(st.just("bsrmise"), st.lists(par, min_size=2, max_size=2)),
            st.tuples(st.just("baseline"), st.sampled_from(["Polynomial(degree=1)", "Polynomial(0)", "NanoSpherical()"])),
        )
    )
    dg = draw(
        st.sampled_from(
            [
                [None, False],
                [None, False],
                [None, True],
                ["absolute", True],
                ["data", False],
                ["max-fraction", False],
                ["max-fraction", True],
                ["ptp-fraction", False],
                ["ptp-fraction", True],
                ["dG-fraction", False],
                ["dG-fraction", True],
            ]
        )
    )
    return {
        "n": draw(st.integers(20, 30)),
        "y": draw(st.lists(gen.floats(-5, 9), min_size=30, max_size=30)),
        "dy": draw(st.sampled_from(["none", "zero", "some", "all", "all"])),
        "fileqmax": draw(st.one_of(st.none(), gen.floats(5, 30))),
        "input": draw(st.sampled_from(["gr", "gr", "srmise"])),
        "file": {
            "cres": maybe(gen.floats(0.05, 1)),
            "qmax": maybe(gen.floats(1, 30)),
            "pf": maybe(st.sampled_from(sorted(FUNCS))),
            "me": maybe(st.sampled_from(["AIC", "AICc"])),
            "nyquist": maybe(st.booleans()),
            "scale": maybe(st.booleans()),
            "supersample": maybe(gen.floats(2, 6)),
            "rng": maybe(st.just([1.2, 1.6])),
            "slope": maybe(number),
        },
        "range": maybe(st.tuples(gen.floats(0, 1.4), gen.floats(1.6, 5)).map(list)),
        "qmax": maybe(st.one_of(st.just("automatic"), st.just("0"), gen.floats(2, 30))),
        "nyquist": maybe(st.booleans()),
        "scale": maybe(st.booleans()),
        "pf": maybe(st.sampled_from(sorted(FUNCS))),
        "cres": maybe(gen.floats(0.01, 1)),
        "supersample": maybe(gen.floats(1, 8)),
        "me": maybe(st.sampled_from(["AIC", "AICc"])),
        "base": None if base is None else list(base),
        "dg": dg + [draw(gen.floats(0.01, 3))],
        "verbosity": draw(st.lists(st.sampled_from(sorted(VERBOSITY)), max_size=2)),
        "extract": draw(st.sampled_from([[False], [False], [True, False], [False, True, False]])),
        "plot": draw(st.sampled_from([None] * 7 + ["--plot", "-p"])),
        "live": draw(st.sampled_from([[]] * 5 + [["-l"], ["--liveplot"], ["-l", "-w"], ["--wait", "--liveplot"], ["-w"]])),
        "short": draw(st.booleans()),
        "order": draw(st.randoms(use_true_random=False).map(lambda r: r.randrange(10**6))),
        "first": draw(st.booleans()),
        "bad": draw(st.sampled_from([None] * 30 + ["pf", "me", "baseline", "two", "none", "unknown", "missing"])),
    }


def text(p):
    return "%r%s" % (p[0], "c" if p[1] else "")


def run(argv):
    """Output of the command, and the code it exits with if it does so."""
    out, err = io.StringIO(), io.StringIO()
    code, old = None, sys.argv
    sys.argv = ["srmise"] + [str(a) for a in argv]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            cli.main()
    except SystemExit as exc:
        code = exc.code
    finally:
        sys.argv = old
    return out.getvalue(), code


def pdf(c, path):
    """A PDF file."""
    n = c["n"]
    dr = 0.05
    with open(path, "w") as f:
        if c["fileqmax"] is not None:
            f.write("qmax=%r\n" % c["fileqmax"])
        f.write("#### start data\n")
        for i in range(n):
            e = {"none": "", "zero": " 0 0", "some": " 0 %r" % (0.1 * (i % 2)), "all": " 0 %r" % (0.1 + 0.01 * i)}[c["dy"]]
            f.write("%r %r%s\n" % (1 + i * dr, c["y"][i], e))


def base_of(c, given):
    kind, pars = given
    if kind == "baseline":
        return {"Polynomial(degree=1)": lambda: Polynomial(1), "Polynomial(0)": lambda: Polynomial(0), "NanoSpherical()": NanoSpherical}[pars]()
    if kind == "bseq":
        return FromSequence([0.0, 1.0, 2.5, 4.0], [0.5, -1.0, 0.0, 2.0]).actualize([])
    if kind == "bcrystal":
        return Polynomial(1).actualize([-4 * np.pi * pars[0][0], 0.0], free=[not pars[0][1], False])
    if kind == "bspherical":
        f = NanoSpherical()
    else:
        f = Polynomial(len(pars) - 1)
    return f.actualize([p[0] for p in pars], free=[not p[1] for p in pars])


def start(c, path):
    """The object the command should start from."""
    p = PDFPeakExtraction()
    if path.endswith(".srmise"):
        p.read(path)
    else:
        p.loadpdf(path)
    return p


def settings(c, p):
    """What the options ask for."""
    d = {}
    for k in ("cres", "supersample", "nyquist", "scale"):
        if c[k] is not None:
            d[k] = c[k]
    if c["range"] is not None:
        d["rng"] = c["range"]
    if c["qmax"] is not None:
        d["qmax"] = c["qmax"] if c["qmax"] == "automatic" else float(c["qmax"])
    if c["pf"] is not None:
        d["pf"] = [FUNCS[c["pf"]]()]
    if c["me"] is not None:
        d["error_method"] = mc.evaluator(c["me"])
    if c["base"] is not None:
        d["baseline"] = base_of(c, c["base"])
    mode, has, v = c["dg"]
    y, dy = np.array(p.y), p.dy
    if mode is None:
        mode = "absolute" if has else "dG-fraction" if c["dy"] == "all" else "max-fraction"
    if not has:
        v = 1.0 if mode == "dG-fraction" else 0.05
    one = np.ones(len(y))
    if mode != "data":
        d["effective_dy"] = {"absolute": v * one, "max-fraction": v * np.max(y) * one, "ptp-fraction": v * (np.max(y) - np.min(y)) * one, "dG-fraction": v * np.array(dy)}[mode]
    return d


def argv(c, infile):
    opts = []
    if c["range"] is not None:
        opts.append(["--range", *map(repr, c["range"])])
    for k in ("cres", "supersample", "pf", "me"):
        if c[k] is not None:
            opts.append(["-m" if k == "me" and c["short"] else "--" + k, c[k] if isinstance(c[k], str) else repr(c[k])])
    if c["qmax"] is not None:
        opts.append(["--qmax", c["qmax"] if isinstance(c["qmax"], str) else repr(c["qmax"])])
    for k in ("nyquist", "scale"):
        if c[k] is not None:
            opts.append(["--" + k if c[k] else "--no-" + k])
    if c["base"] is not None:
        kind, pars = c["base"]
        opts.append(["--" + kind] + ([pars] if kind == "baseline" else ["seq.dat"] if kind == "bseq" else ["base.srmise"] if kind == "bsrmise" else [text(p) for p in pars]))
    mode, has, v = c["dg"]
    if mode is not None:
        opts.append(["--dg-mode", mode])
    if has:
        opts.append(["--dg", repr(v)])
    if c["verbosity"]:
        opts.append(c["verbosity"])  # of several, the last one counts
    opts.append(["--extract" if e else "--no-extract" for e in c["extract"]])
    opts.extend([o] for o in c["live"])
    if c["plot"]:
        opts.append([c["plot"]])
    np.random.RandomState(c["order"]).shuffle(opts)
    flat = [a for o in opts for a in o]
    return [infile] + flat if c["first"] else flat + [infile]


def clean(*names):
    for f in names:
        if os.path.exists(f):
            os.unlink(f)


@LAWS.law(commands, quick=500, thorough=6000, rule="non-trivial: >= 3 settings given by options")
def options(c, note):
    """Each option sets what it says and nothing else; what is not given comes from the file or the documented defaults; wrong commands write nothing."""
    mode, has, v = c["dg"]
    if mode == "dG-fraction" and c["dy"] != "all":
        c["dg"] = [None, has, v]
    clean("in.gr", "in.srmise", "base.srmise", "seq.dat", "out.srmise", "out.pwa")
    infile = "in." + c["input"]
    pdf(c, "in.gr")
    if c["input"] == "srmise":
        f = c["file"]
        q = PDFPeakExtraction()
        q.loadpdf("in.gr")
        d = {k: f[k] for k in ("cres", "qmax", "nyquist", "scale", "supersample", "rng") if f[k] is not None}
        if f["pf"]:
            d["pf"] = [FUNCS[f["pf"]]()]
        if f["me"]:
            d["error_method"] = mc.evaluator(f["me"])
        if f["slope"] is not None:
            d["baseline"] = Polynomial(1).actualize([f["slope"], 0.0])
        q.setvars(quiet=True, **d)
        q.write("in.srmise")
    if c["base"] is not None and c["base"][0] == "bseq":
        with open("seq.dat", "w") as g:
            g.write("# x y\n0.0 0.5\n1.0 -1.0\n2.5 0.0\n4.0 2.0\n")
    if c["base"] is not None and c["base"][0] == "bsrmise":
        q = PDFPeakExtraction()
        q.setdata(np.arange(1.0, 3.0, 0.1), np.ones(20))
        q.setvars(quiet=True, qmax=0.0, baseline=base_of(c, c["base"]), initial_peaks=None)
        q.defaultvars()
        from diffpy.srmise.modelcluster import ModelCluster

        q.setvars(quiet=True, baseline=q.baseline.owner().actualize(np.array(q.baseline.pars) + 0.5))
        q.extracted = ModelCluster(None, base_of(c, c["base"]), q.x, q.y, q.effective_dy, None, q.error_method, q.pf)
        q.write("base.srmise")
    cmd = argv(c, infile) + ["--save", "out.srmise"]
    if c["bad"]:
        if c["bad"] in ("pf", "me", "baseline"):
            cmd = [infile, "--save", "out.srmise", "--no-extract", "--" + c["bad"], "NoSuchThing(1)"]
        elif c["bad"] == "two":
            cmd += ["in.gr"]
        elif c["bad"] == "none":
            cmd = ["--no-extract", "--save", "out.srmise"]
        elif c["bad"] == "unknown":
            cmd += ["--nosuchoption"]
        else:
            cmd = [a if a != infile else "missing.gr" for a in cmd]
        try:
            out, code = run(cmd)
        except Exception:
            code, out = 1, "failed"
        check(code or "Could not" in out, "command %s is accepted: %s", cmd, out)
        check(not os.path.exists("out.srmise"), "command %s wrote a file", cmd)
        note("bad command")
        clean("in.gr", "in.srmise", "base.srmise", "seq.dat")
        return False
    live = srmiselog.liveplots, srmiselog.wait
    level, loglevel = srmiselog.ch.level, srmiselog.logger.level
    plt.close("all")
    shown = []
    show, plt.show = plt.show, lambda *a, **k: shown.append(plt.get_fignums())
    try:
        out, code = run(cmd)
        check(code in (None, 0), "command %s exits with %r", cmd, code)
        got = VERBOSITY[c["verbosity"][-1]] if c["verbosity"] else 30
        check(srmiselog.ch.level == got, "%s: console shows messages of level %r and above", cmd, srmiselog.ch.level)
        check(srmiselog.logger.level <= got, "%s: messages of level %r are not logged", cmd, got)
        on = bool(set(c["live"]) & {"-l", "--liveplot"})
        check(srmiselog.liveplots == (on or live[0]), "%s: live plotting is %r", cmd, srmiselog.liveplots)
        check(not on or srmiselog.wait == bool(set(c["live"]) & {"-w", "--wait"}), "%s: waits after plotting: %r", cmd, srmiselog.wait)
        check(len(shown) == (1 if c["plot"] or on else 0), "%s: plots shown %d times", cmd, len(shown))
        if c["plot"]:
            check(shown[0] and any(len(a.lines) for f in shown[0] for a in plt.figure(f).axes), "%s: nothing is plotted", cmd)
            note("plotted")
    finally:
        plt.show = show
        plt.close("all")
        srmiselog.liveplots, srmiselog.wait = live
        srmiselog.ch.setLevel(level)
        srmiselog.logger.setLevel(loglevel)
    check(os.path.exists("out.srmise"), "command %s: nothing saved: %s", cmd, out)
    got = PDFPeakExtraction()
    got.read("out.srmise")
    want = start(c, infile)
    want.setvars(quiet=True, **settings(c, want))
    again = PDFPeakExtraction()
    again.readstr(want.writestr())
    d = session.diff(session.state(again, True), session.state(got, True), "", 1e-5)
    check(d is None, "%s: expected / got: %s", cmd, d)
    check(got.extracted is None, "something was extracted")
    clean("in.gr", "in.srmise", "base.srmise", "seq.dat", "out.srmise")
    note(c["input"])
    return sum(c[k] is not None for k in ("range", "qmax", "nyquist", "scale", "pf", "cres", "supersample", "me", "base")) >= 3


@st.composite
def whole(draw):
    from props import C20

    return {
        "truth": draw(C20.truth(0.2, 1.3))[: draw(st.sampled_from([1, 2]))],
        "kind": draw(st.sampled_from(["R", "G"])),
        "qmax": 0.0,
        "dr": draw(st.sampled_from([0.05, 0.08])),
        "base": draw(st.sampled_from(["none", "slope"])),
        "slope": draw(gen.floats(0, 0.6)),
        "baseopt": draw(st.sampled_from([None, "fixed", "free"])),
        "dg": draw(gen.floats(0.1, 1.0)),
        "me": draw(st.sampled_from([None, "AIC", "AICc"])),
        "q": draw(st.sampled_from(["0", "0", "25.0"])),
        "range": draw(st.booleans()),
        "save": draw(st.booleans()),
        "pwa": draw(st.booleans()),
        "plot": draw(st.integers(0, 5)),
        "extract": draw(st.sampled_from([[], [], ["--extract"], ["--no-extract", "--extract"]])),
        "live": draw(st.sampled_from([[]] * 5 + [["-l"]])),
    }


@LAWS.law(whole, quick=16, thorough=500, rule="non-trivial: >= 1 peak extracted and saved")
def extraction(c, note):
    """The command extracts what the extraction object does with these settings, saves it and its summary, and leaves the input alone."""
    from props import C20

    pf, r, y, b = C20.data(c)
    clean("in.gr", "out.srmise", "out.pwa")
    with open("in.gr", "w") as f:
        f.write("#### start data\n")
        f.writelines("%r %r\n" % (float(u), float(v)) for u, v in zip(r, y))
    with open("in.gr") as f:
        original = f.read()
    cls = "GaussianOverR" if c["kind"] == "R" else "Gaussian"
    cmd = ["in.gr", "--pf", cls + "(0.7)", "--dg", repr(c["dg"]), "--qmax", c["q"], "-s", "--cres", "0.2"]
    kw = {"pf": [FUNCS["GaussianOverR(maxwidth=0.7)"]() if c["kind"] == "R" else Gaussian(0.7)], "effective_dy": c["dg"] * np.ones(len(r)), "qmax": float(c["q"]), "cres": 0.2}
    if c["baseopt"]:
        fixed = c["baseopt"] == "fixed"
        s = -c["slope"]
        cmd += ["--bpoly1", repr(s) + ("c" if fixed else ""), "0c"]
        kw["baseline"] = Polynomial(1).actualize([s, 0.0], free=[not fixed, False])
    if c["me"]:
        cmd += ["--me", c["me"]]
        kw["error_method"] = mc.evaluator(c["me"])
    if c["range"]:
        rng = [float(r[2]), float(r[-3])]
        cmd += ["--range", *map(repr, rng)]
        kw["rng"] = rng
    if c["save"]:
        cmd += ["--save", "out.srmise"]
    if c["pwa"]:
        cmd += ["--pwa", "out.pwa"]
    if c["plot"] == 0:
        cmd += ["--plot"]
    cmd += c["extract"] + c["live"]
    live = srmiselog.liveplots, srmiselog.wait
    try:
        out, code = run(cmd)
    finally:
        srmiselog.liveplots, srmiselog.wait = live
        if not c["plot"] == 0:
            plt.close("all")
    if c["plot"] == 0:
        check(len(plt.get_fignums()) > 0, "nothing is plotted")
        plt.close("all")
        note("plotted")
    check(code in (None, 0), "command %s exits with %r", cmd, code)
    with open("in.gr") as f:
        check(f.read() == original, "the input was changed")
    check(os.path.exists("out.srmise") == c["save"] and os.path.exists("out.pwa") == c["pwa"], "files written: %s", os.listdir("."))
    want = PDFPeakExtraction()
    want.loadpdf("in.gr")
    want.setvars(quiet=True, **kw)
    want.extract()
    if c["save"]:
        got = PDFPeakExtraction()
        got.read("out.srmise")
        again = PDFPeakExtraction()
        again.readstr(want.writestr())
        d = session.diff(session.state(again, True), session.state(got, True), "", 1e-4)
        check(d is None, "%s: expected / got: %s", cmd, d)
    if c["pwa"]:
        rows = lambda t: [u.split("#")[0].split() for u in t[t.index("## Extracted Peaks") :].splitlines() if u.strip() and not u.startswith("#")]  # noqa: E731
        with open("out.pwa") as f:
            got, wanted = rows(f.read()), rows(want.writepwastr(""))
        check(len(got) == len(wanted) and np.allclose(np.array(got, dtype=float), np.array(wanted, dtype=float), rtol=1e-4), "summary %s, expected %s", got, wanted)
    clean("in.gr", "out.srmise", "out.pwa")
    return len(want.extracted.model) > 0 and c["save"]


OPTIONS = (
    "--extract --no-extract --range --qmax --nyquist --no-nyquist --pf --cres --supersample --me --baseline --bcrystal --bsrmise --bpoly0 --bpoly1 "
    "--bpoly2 --bseq --bspherical --dg-mode --dg --pwa --save --plot --liveplot --wait --informative --quiet --silent --verbose --scale --no-scale --help --version"
).split()
word = st.text("abcdefgh'()=,._", min_size=1, max_size=11)
paragraph = st.lists(word, min_size=1, max_size=20).map(" ".join)


@st.composite
def helps(draw):
    return {
        "columns": draw(st.integers(40, 160)),
        "script": draw(st.sampled_from([False] * 4 + [True])),
        "usage": draw(paragraph),
        "description": draw(st.lists(paragraph, max_size=3)),
        "epilog": draw(st.lists(paragraph, max_size=2)),
        "options": draw(
            st.lists(
                st.tuples(
                    st.text("abcdefghijk", min_size=2, max_size=24),
                    st.one_of(st.none(), st.text("ABCD", min_size=1, max_size=20)),
                    st.lists(paragraph, max_size=3),
                    st.sampled_from([None, None, "x", "y", "z"]),
                ).map(list),
                max_size=5,
                unique_by=lambda o: o[0],
            )
        ),
        "version": draw(st.booleans()),
    }


@LAWS.law(helps, quick=120, rule="non-trivial: an option whose help has several paragraphs")
def help_(c, note):
    """The help names every option, with all words of its description in order, each paragraph on a new line, within the width of the console."""
    width = max(c["columns"] - 2, 11)
    old = os.environ.get("COLUMNS")
    os.environ["COLUMNS"] = str(c["columns"])
    try:
        if c["script"]:
            out, code = run(["--help"])
            check(code in (None, 0), "--help exits with %r", code)
            named = set(w.split("=")[0].rstrip(",") for line in out.splitlines() for w in line.split()[:3] if line.strip().startswith("-"))
            for o in OPTIONS:
                check(o in named, "the help does not name %s:\n%s", o, out)
            for line in out.splitlines():
                if c["columns"] >= 60 and line.startswith("    "):
                    check(len(line) <= width, "line of %d characters in %d columns: %r", len(line), c["columns"], line)
            if c["version"]:
                from diffpy.srmise import __version__

                out, code = run(["--version"])
                check(code in (None, 0) and __version__ in out, "--version prints %r and exits with %r", out, code)
            return False
        from optparse import OptionParser

        used = set()
        p = OptionParser(
            usage=c["usage"],
            description="\n".join(c["description"]) or None,
            epilog="\n".join(c["epilog"]) or None,
            formatter=cli.IndentedHelpFormatterWithNL(),
        )
        for name, metavar, pars, short in c["options"]:
            if name == "help" or short in used:
                short = None
            used.add(short)
            kw = {"dest": "d"}
            if metavar:
                kw["metavar"] = metavar
            else:
                kw["action"] = "store_true"
            p.add_option("--" + name, *(["-" + short] if short else []), help="\n".join(pars) or None, **kw)
        out = p.format_help()
    finally:
        if old is None:
            del os.environ["COLUMNS"]
        else:
            os.environ["COLUMNS"] = old
    lines = out.split("\n")
    words = [w for line in lines for w in line.split()]
    want = c["usage"].split()
    for d in c["description"]:
        want += d.split()
    check(words[: len(want) + 1] == ["Usage:"] + want, "help begins with %s, expected %s", words[: len(want) + 1], want)
    rest = words[len(want) + 1 :]
    pos = rest.index("Options:") + 1
    check(pos == 1, "words before the options: %s", rest[:pos])
    blocks = [["help", None, ["show this help message and exit"], "h"]] + c["options"]
    seen = set()
    for name, metavar, pars, short in blocks:
        short = None if short in seen or name == "help" and short != "h" else short
        seen.add(short)
        long = "--" + name + ("=" + metavar if metavar else "")
        head = (["-" + short + (" " + metavar if metavar else "") + ","] if short else []) + [long]
        expect = " ".join(head).split() + [w for q in pars for w in q.split()]
        check(rest[pos : pos + len(expect)] == expect, "help of --%s is %s, expected %s", name, rest[pos : pos + len(expect)], expect)
        pos += len(expect)
    tail = [w for d in c["epilog"] for w in d.split()]
    check(rest[pos:] == tail, "help ends with %s, expected %s", rest[pos:], tail)
    # each paragraph begins a line, after the name of its option at most
    body = [" ".join(line.split()) for line in lines]
    ends = lambda q: any(b.endswith(q.split()[-1]) or not b for b in body)  # noqa: E731
    for q in c["description"] + c["epilog"] + [q for o in c["options"] for q in o[2][1:]]:
        first = q.split()[0]
        check(any(b.startswith(first) for b in body), "paragraph %r does not begin a line:\n%s", q, out)
        check(ends(q), "paragraph %r does not end a line:\n%s", q, out)
    if c["columns"] >= 60:
        for line in lines[1:]:
            check(len(line) <= width or len(line.split()) <= 3, "line of %d characters in %d columns: %r", len(line), c["columns"], line)
    return any(len(o[2]) > 1 for o in c["options"])
