"""Damaged sessions are refused."""

import os
import re

from hypothesis import strategies as st

from diffpy.srmise.pdfdataset import PDFDataSet
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.srmiseerrors import SrMiseDataFormatError, SrMiseFileError
from harness import session
from harness.core import LawSet, check

LAWS = LawSet(
    "C16",
    assumptions=["a file cut between two rows of its last table cannot be told from a shorter one, and is not refused"],
)

SECTIONS = [
    "BaselineFunctions",
    "PeakFunctions",
    "BaselineObject",
    "InitialPeaks",
    "SrMiseMetadata",
    "Metadata",
    "start data",
    "Results",
]
FIELDS = ["pf", "ModelEvaluator", "Range", "extraction_type"]
DAMAGE = st.sampled_from(
    ["section", "field", "meta", "row", "row", "word", "extra", "index", "function", "evaluator", "part", "flag", "cut", "cut", "cluster"]
)


@st.composite
def damaged(draw):
    return {
        "s": draw(session.session()),
        "how": draw(DAMAGE),
        "at": draw(st.integers(0, 1000)),
        "what": draw(st.sampled_from(["x", "1.2.3", "--", "1,5", "0x", "None", "?"])),
        "eol": draw(st.booleans()),
    }


def rows(lines):
    """Numbers of the lines which are rows of a table: of the data, and of the result."""
    out, on = [], False
    for i, line in enumerate(lines):
        if line.startswith("#L"):
            on = True
        elif line.startswith("#"):
            on = False
        elif on and line.strip():
            out.append(i)
    return out


def damage(text, c):
    """The damaged text, and what was done, or None where the damage does not apply."""
    lines = text.split("\n")
    how, k = c["how"], c["at"]
    pick = lambda seq: seq[k % len(seq)] if seq else None  # noqa: E731
    if how == "section":
        name = pick(SECTIONS)
        i = next(i for i, t in enumerate(lines) if re.match(r"#+ %s\s*$" % name, t))
        del lines[i]
        # a removed title of this name must not be replaced by one of the result's own sections
        if name == "start data" and c["s"]["result"]:
            return None, None
        return "\n".join(lines), "section " + name
    if how == "field":
        name = pick(FIELDS)
        i = next(i for i, t in enumerate(lines) if t.startswith(name + "="))
        del lines[i]
        return "\n".join(lines), "field " + name
    if how == "meta":
        if not c["s"]["pdf"]:
            return None, None
        name = pick(session.META)
        start = lines.index("# Metadata")
        i = next(i for i, t in enumerate(lines) if i > start and t.startswith(name + "="))
        del lines[i]
        return "\n".join(lines), "field " + name
    if how in ("row", "word", "extra"):
        i = pick(rows(lines))
        f = lines[i].split()
        if how == "row":
            f = f[:-1]
            if not f:
                return None, None
        elif how == "word":
            f[k % len(f)] = c["what"]
        else:
            f.append("1")
        lines[i] = " ".join(f)
        return "\n".join(lines), "row %r" % lines[i]
    if how == "index":
        i = pick([i for i, t in enumerate(lines) if re.match(r"owner=\d+$", t)])
        if i is None:
            return None, None
        n = sum(bool(re.match(r"# (Peak|Baseline)Function \d", t)) for t in lines)
        lines[i] = "owner=%d" % (n + k % 3)
        return "\n".join(lines), "owner index"
    if how == "function":
        i = pick([i for i, t in enumerate(lines) if re.match(r"(function|module)=", t)])
        if i is None:
            return None, None
        lines[i] = lines[i][:-1] + "Nonesuch'"
        return "\n".join(lines), lines[i]
    if how == "evaluator":
        i = pick([i for i, t in enumerate(lines) if t.startswith("ModelEvaluator=")])
        lines[i] = "ModelEvaluator=BIC%d" % k
        return "\n".join(lines), lines[i]
    if how in ("part", "flag"):
        key = "pars" if how == "part" else "free"
        i = pick([i for i, t in enumerate(lines) if re.match(r"%s=\S*\[?.*\d|%s=.*(True|False)" % (key, key), t)])
        if i is None:
            return None, None
        lines[i] = key + "=[1.0, 2.0, 3.0, 4.0]" if how == "part" else key + "=[True, True, True, False]"
        return "\n".join(lines), lines[i]
    if how == "cut":
        last = max(i for i, t in enumerate(lines) if t.startswith("##### Results"))
        n = sum(len(t) + 1 for t in lines[: last + 1])
        cut = 1 + (k * 7919) % (n - 2)
        return text[:cut], "cut after %d of %d" % (cut, len(text))
    i = next((i for i, t in enumerate(lines) if t.startswith("### ModelCluster")), None)
    sub = [j for j in range(i, len(lines)) if re.match(r"#+ (ModelPeaks|start data|BaselineObject)|(peak_funcs|slice)=", lines[j])]
    if not sub:
        return None, None
    j = pick(sub)
    what = lines[j]
    del lines[j]
    return "\n".join(lines), "of the result: " + what


def new(pdf):
    return PDFPeakExtraction() if pdf else PeakExtraction()


@LAWS.law(damaged, quick=900, rule="non-trivial: the damage applied, in a section or a table row")
def refused(c, note):
    """A session lacking a section or field, or with a malformed row, index or name, is refused; then a sound one can be read."""
    pdf = c["s"]["pdf"]
    text = session.build(c["s"]).writestr()
    bad, what = damage(text, c)
    if bad is None:
        return False
    t = new(pdf)
    try:
        t.readstr(bad)
    except Exception as e:
        note(c["how"])
        if c["how"] in ("section", "meta", "row", "word", "extra"):
            check(isinstance(e, SrMiseDataFormatError), "%s: %r", what, e)
            with open("bad.srmise", "w") as f:
                f.write(bad)
            try:
                new(pdf).read("bad.srmise")
                check(False, "%s: accepted from a file", what)
            except SrMiseFileError as e:
                check("bad.srmise" in str(e), "the message does not name the file: %s", e)
            os.unlink("bad.srmise")
    else:
        check(False, "accepted: %s", what)
    # the object is as good as new
    t.readstr(text)
    u = new(pdf)
    u.readstr(text)
    d = session.diff(session.state(u, pdf), session.state(t, pdf), rtol=0)
    check(not d, "after a refused file: %s", d)
    return True


@LAWS.law(
    lambda: st.fixed_dictionaries({"s": session.session(), "junk": st.text(max_size=60), "n": st.integers(0, 12)}),
    quick=250,
    rule="every case: a file which is no session",
)
def other_files(c, note):
    """Other files are refused as sessions, and sessions as PDFs, by the error which lets callers try the other format."""
    pdf = c["s"]["pdf"]
    d = PDFDataSet("x")
    d.robs = [0.1 * (i + 1) for i in range(c["n"] + 1)]
    d.Gobs = [float(i % 3) for i in range(c["n"] + 1)]
    d.drobs = d.dGobs = [0.0] * (c["n"] + 1)
    d.qmax = 20.0
    for text in (d.writeStr(), c["junk"]):
        try:
            new(pdf).readstr(text)
            check(False, "read as a session: %r", text)
        except SrMiseDataFormatError:
            pass
        with open("o.srmise", "w", encoding="utf-8", errors="replace", newline="") as f:
            f.write(text)
        try:
            new(pdf).read("o.srmise")
            check(False, "read as a session: %r", text)
        except SrMiseFileError:
            pass
    session.build(c["s"]).write("o.srmise")
    for k in (1, 2):
        try:
            if k == 1:
                PDFDataSet("y").read("o.srmise")
            else:
                PDFPeakExtraction().loadpdf("o.srmise")
            check(False, "a session was read as a PDF")
        except SrMiseFileError:
            pass
    os.unlink("o.srmise")
    return True


@LAWS.law(
    lambda: st.fixed_dictionaries({"s": session.session(), "comments": st.lists(st.tuples(st.integers(0, 3), st.sampled_from(["#", "# note", "## more: 1 2 3"])), max_size=4), "crlf": st.booleans()}),
    quick=200,
    rule="non-trivial: with comments or other line ends",
)
def tolerated(c, note):
    """Line ends and comments after section titles do not matter."""
    pdf = c["s"]["pdf"]
    text = session.build(c["s"]).writestr()
    u = new(pdf)
    u.readstr(text)
    titles = ["# BaselineObject", "# SrMiseMetadata", "# Metadata", "### ModelCluster"]
    for k, comment in c["comments"]:
        text = re.sub(r"(?m)^%s$" % re.escape(titles[k]), titles[k] + "\n" + comment, text, count=1)
    with open("c.srmise", "wb") as f:
        f.write((text.replace("\n", "\r\n") if c["crlf"] else text).encode())
    t = new(pdf)
    t.read("c.srmise")
    os.unlink("c.srmise")
    d = session.diff(session.state(u, pdf), session.state(t, pdf), rtol=0)
    check(not d, "with comments %s: %s", c["comments"], d)
    return bool(c["comments"]) or c["crlf"]
