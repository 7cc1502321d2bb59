"""Experimental PDF files."""

import os
import re

import numpy as np
from hypothesis import strategies as st

from diffpy.srmise.pdfdataset import PDFDataFormatError, PDFDataSet
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.srmiseerrors import SrMiseFileError, SrMisePDFKeyError
from harness import gen
from harness.core import LawSet, check

LAWS = LawSet(
    "C17",
    assumptions=[
        "numbers are written to 6 digits, qmax to 2 decimals",
        "names of other metadata are words, their values numbers",
    ],
)

VAL = gen.floats(-1e4, 1e4)
POS = st.one_of(gen.floats(0.001, 50), st.sampled_from([1e-6, 3e-5, 1e5, 1.0]))
NAME = st.sampled_from(["temperature", "doping", "T", "x", "run", "Scan_2", "pressure", "qmax", "wave", "stype2", "a1"])


@st.composite
def column(draw, n):
    """Uncertainties, and whether they count: all must be positive numbers."""
    kind = draw(st.sampled_from(["ok", "ok", "ok", "zero", "none", "bad", "negative"]))
    v = draw(st.lists(POS, min_size=n, max_size=n))
    if kind == "zero":
        v = [0.0] * n
    elif kind == "bad":
        v[draw(st.integers(0, n - 1))] = draw(st.sampled_from(["nan", "inf", "-Inf", "NaN", "INF"]))
    elif kind == "negative":
        v[draw(st.integers(0, n - 1))] = draw(st.sampled_from([0.0, -1.0, -1e-3]))
    return [kind, v]


@st.composite
def dataset(draw):
    n = draw(st.integers(1, 12))
    x = [draw(gen.floats(-2, 5))]
    for g in draw(st.lists(gen.floats(0.01, 1), min_size=n - 1, max_size=n - 1)):
        x.append(x[-1] + g)
    return {
        "r": x,
        "G": draw(st.lists(VAL, min_size=n, max_size=n)),
        "dr": draw(column(n)),
        "dG": draw(column(n)),
        "stype": draw(st.sampled_from(["X", "N"])),
        "qmax": draw(st.one_of(st.just(0.0), gen.floats(0.5, 60), st.sampled_from([7.0, 26.0, 100.25]))),
        "qdamp": draw(st.one_of(POS, st.just(0.0))),
        "qbroad": draw(st.one_of(POS, st.just(0.0))),
        "dscale": draw(st.one_of(POS, gen.floats(-5, 5))),
        "meta": draw(st.dictionaries(NAME, st.one_of(VAL, POS, st.integers(-9, 400)), max_size=4)),
    }


def good(col):
    return col[0] == "ok"


def make(c):
    d = PDFDataSet("name")
    n = len(c["r"])
    d.robs, d.Gobs = list(c["r"]), list(c["G"])
    d.drobs = list(c["dr"][1]) if good(c["dr"]) else [0.0] * n
    d.dGobs = list(c["dG"][1]) if good(c["dG"]) else [0.0] * n
    for k in ("stype", "qmax", "qdamp", "qbroad", "dscale"):
        setattr(d, k, c[k])
    d.rmin, d.rmax = d.robs[0], d.robs[-1]
    d.metadata = dict(c["meta"])
    return d


ATTR = ("robs", "Gobs", "drobs", "dGobs", "stype", "qmax", "qdamp", "qbroad", "dscale", "rmin", "rmax", "metadata")


def near(a, b, rtol=1e-5, atol=1e-300):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=rtol, atol=atol)


def compare(a, d, what):
    for k in ATTR:
        u, v = a[k], getattr(d, k)
        if k == "stype":
            ok = u == v
        elif k == "metadata":
            ok = set(u) == set(v) and all(near(float(u[m]), v[m]) for m in u)
        elif k == "qmax":
            ok = abs(u - v) <= 0.00501
        else:
            ok = near(u, v)
        check(ok, "%s: %s is %r, expected %r", what, k, v, u)


@LAWS.law(dataset, quick=1200, rule="non-trivial: >= 2 points and uncertainties or metadata")
def roundtrip(c, note):
    """What is written is read back; reading replaces what was there; copies are independent."""
    d = make(c)
    want = {k: getattr(d, k) for k in ATTR}
    text = d.writeStr()
    e = PDFDataSet("other")
    e.qmax, e.metadata, e.stype, e.spdiameter, e.dscale = 99.0, {"old": 1.0}, "N", 3.0, 7.0
    check(e.readStr(text) is e, "reading returns the data set")
    compare(want, e, "read")
    check(e.spdiameter is None and e.filename is None, "left over from before reading")
    d.write("d.gr")
    f = PDFDataSet("file")
    check(f.read("d.gr") is f and f.filename == os.path.abspath("d.gr"), "file name %r", f.filename)
    compare({k: getattr(e, k) for k in ATTR}, f, "file")
    g = f.copy()
    compare({k: getattr(f, k) for k in ATTR}, g, "copy")
    check(g.filename == f.filename, "file name of a copy")
    h = PDFDataSet("third")
    h.metadata, h.qmax = {"old": 1.0}, 3.0
    check(f.copy(h) is h and h.name == "third", "copy to another")
    compare({k: getattr(f, k) for k in ATTR}, h, "copy to another")
    g.metadata["new"] = 1.0
    g.qmax = 1.0
    check("new" not in f.metadata and abs(f.qmax - e.qmax) < 1e-9, "a copy changed its source")
    for k in ("qdamp", "qbroad", "dscale"):
        check(f.getvar(" " + k + " ") == getattr(f, k), "variable %s", k)
        f.setvar(k, "2.5")
        check(f.getvar(k) == 2.5 and getattr(f, k) == 2.5, "variable %s set", k)
    for k in ("qmax", "stype", "", "Qdamp", "robs"):
        for op in (lambda: f.getvar(k), lambda: f.setvar(k, 1.0)):
            try:
                op()
                check(False, "variable %r accepted", k)
            except SrMisePDFKeyError:
                pass
    # extraction takes the data over
    p = PDFPeakExtraction()
    p.setdata([1.0, 2.0, 3.0, 4.0], [1.0, 0.0, 1.0, 0.0])
    p.cres, p.qmax, p.rng = 1.0, 4.0, [1.0, 2.0]
    src = "d.gr" if c["qmax"] > 20 else e
    p.loadpdf(src)
    for k, v in (("x", e.robs), ("y", e.Gobs), ("dx", e.drobs), ("dy", e.dGobs)):
        check(near(v, getattr(p, k), 1e-14), "%s loaded: %s, expected %s", k, getattr(p, k), v)
    check(p.qmax_reportedbypdf == e.qmax and p.qmax is None and p.cres is None and p.rng is None, "loaded settings")
    check(p.filename == (os.path.abspath("d.gr") if src == "d.gr" else None), "loaded file name %r", p.filename)
    os.unlink("d.gr")
    return len(c["r"]) > 1 and (good(c["dG"]) or good(c["dr"]) or bool(c["meta"]))


@st.composite
def header(draw):
    c = draw(dataset())
    sp = st.sampled_from(["=", " = ", "= ", " =", "  =  "])
    num = st.sampled_from(["%r", "%.3f", "%.6e", "%g", "+%g"])
    items = {}
    for k, names in (
        ("stype", ["X-ray", "xray", "Neutron", "PDFgetX2", "PDFgetN", "stype=N  neutron scattering", "x-ray data"]),
        ("qmax", ["qmax", "Qmax", "QMAX"]),
        ("qdamp", ["qdamp", "Qdamp", "qsig", "Qsig"]),
        ("qbroad", ["qbroad", "QBROAD", "qalp"]),
        ("spdiameter", ["spdiameter"]),
        ("dscale", ["dscale", "Dscale"]),
        ("temperature", ["temp", "temperature", "T"]),
        ("doping", ["doping", "x"]),
    ):
        if draw(st.booleans()):
            items[k] = [draw(st.sampled_from(names)), draw(sp), draw(num), draw(gen.floats(0.01, 400))]
    c["items"] = items
    c["order"] = draw(st.permutations(sorted(items)))
    c["prefix"] = draw(st.sampled_from(["", "# ", "  ", "## "]))
    c["sameline"] = draw(st.sampled_from(["", "", "  ", ", ", "; ", ") (", "\t"]))
    c["start"] = draw(st.sampled_from(["##### start data", "#### start data", "# start data", "##### start data\n#S 1\n#L r(A) G(r) d_r d_Gr", "", "#L r G"]))
    c["metatitle"] = draw(st.sampled_from(["# metadata", "##  metadata", "#   metadata"]))
    c["sep"] = draw(st.sampled_from([" ", "\t", "   ", " \t "]))
    c["lead"] = draw(st.sampled_from(["", "  ", "\t"]))
    c["tail"] = draw(st.sampled_from(["", "\n", "\n\n \n"]))
    c["eol"] = draw(st.sampled_from(["\n", "\r\n"]))
    c["fmt"] = draw(st.sampled_from(["%r", "%.17g", "%.16E", "%+.17e"]))
    c["extra"] = draw(st.booleans())
    return c


def cells(c, i):
    row = [c["fmt"] % c["r"][i], c["fmt"] % c["G"][i]]
    dr, dG = c["dr"], c["dG"]
    if dr[0] == "none":
        if dG[0] != "none":
            row.append("0")
    else:
        v = dr[1][i]
        row.append(v if isinstance(v, str) else c["fmt"] % v)
    if dG[0] != "none":
        v = dG[1][i]
        row.append(v if isinstance(v, str) else c["fmt"] % v)
        if c["extra"]:
            row.append("0.5")
    return row


def text_of(c):
    parts, want = [], {"stype": "X", "qmax": 0.0, "qdamp": 0.001, "qbroad": 0.0, "dscale": 1.0, "spdiameter": None}
    meta = {}
    for k in c["order"]:
        name, eq, fmt, v = c["items"][k]
        if k == "stype":
            parts.append(name)
            want["stype"] = "N" if re.search("neutron|getN", name, re.I) else "X"
        else:
            s = fmt % v
            parts.append(name + eq + s)
            if k in ("temperature", "doping"):
                meta[k] = float(s)
            else:
                want[k] = float(s)
    glue = c["sameline"] or "\n" + c["prefix"]
    head = c["prefix"] + glue.join(parts) if parts else c["prefix"]
    lines = ["History written: somewhere", head] if c["start"] else ["# somewhere", "#" + head.replace("\n", "\n#")]
    if c["meta"] and c["start"].endswith(("data", "d_Gr")):
        lines.append(c["metatitle"])
        for k, v in c["meta"].items():
            lines.append("%s=%r" % (k, v))
            meta[k] = float(v)
    if c["start"]:
        lines.append(c["start"])
    n = len(c["r"])
    for i in range(n):
        lines.append(c["lead"] + c["sep"].join(cells(c, i)))
    want["metadata"] = meta
    want["robs"], want["Gobs"] = c["r"], c["G"]
    want["drobs"] = c["dr"][1] if good(c["dr"]) else [0.0] * n
    want["dGobs"] = c["dG"][1] if good(c["dG"]) else [0.0] * n
    want["rmin"], want["rmax"] = c["r"][0], c["r"][-1]
    return c["eol"].join("\n".join(lines).split("\n")) + c["tail"], want


@LAWS.law(header, quick=1500, rule="non-trivial: >= 2 header items")
def layouts(c, note):
    """Items of the header in any order and layout are found, whatever marks the start of the data and its columns."""
    text, want = text_of(c)
    with open("h.gr", "w", newline="", encoding="utf-8") as f:
        f.write("# \u00e9\u03b1" + c["eol"] + text)
    d = PDFDataSet("d").read("h.gr")
    os.unlink("h.gr")
    e = PDFDataSet("e")
    e.readStr(text)
    for s, what in ((d, "file"), (e, "text")):
        for k, v in want.items():
            g = getattr(s, k)
            if k == "metadata":
                ok = set(g) == set(v) and all(near(v[m], g[m], 1e-14) for m in v)
            elif v is None or isinstance(v, str):
                ok = g == v
            else:
                ok = near(v, g, 1e-14)
            check(ok, "%s: %s is %r, expected %r in\n%s", what, k, g, v, text)
    return len(c["items"]) >= 2


@LAWS.law(
    lambda: st.fixed_dictionaries(
        {
            "c": header(),
            "how": st.sampled_from(["word", "short", "empty", "binary", "G", "missing", "blank", "uncertainty"]),
            "at": st.integers(0, 11),
            "what": st.sampled_from(["a", "1.2.3", "--1", "1;5"]),
        }
    ),
    quick=500,
    rule="non-trivial: >= 2 rows",
)
def refused(c, note):
    """Files without data, with malformed rows, or not text are refused; sound files are read afterwards."""
    k = c["c"]
    text, want = text_of(k)
    n = len(k["r"])
    rows = [k["sep"].join(cells(k, i)) for i in range(n)]
    at = c["at"] % n
    head = "qmax=20\n##### start data\n"
    if c["how"] in ("word", "G"):
        w = rows[at].split()
        w[0 if c["how"] == "word" else 1] = c["what"]
        rows[at] = " ".join(w)
    elif c["how"] == "uncertainty":
        w = (rows[at].split() + ["1", "1"])[:4]
        w[3] = c["what"]
        rows = ["1 2 3 4"] * at + [" ".join(w)]
    elif c["how"] == "short":
        rows[at] = rows[at].split()[0]
    elif c["how"] == "empty":
        rows = []
    elif c["how"] == "missing":
        rows, head = [], "# nothing\nqmax=20\n"
    elif c["how"] == "blank":
        rows.insert(at, "")
        rows.insert(0, "1 2")
    bad = head + "\n".join(rows) + "\n"
    if c["how"] == "blank" and at == 0:
        bad += "\n1 1\n"
    data = bad.encode()
    if c["how"] == "binary":
        data = bad.encode() + b"\xff\xfe\x00\x81\n"
    d = PDFDataSet("d")
    if c["how"] != "binary":
        try:
            d.readStr(bad)
            check(False, "accepted:\n%s", bad)
        except PDFDataFormatError:
            pass
    with open("bad.gr", "wb") as f:
        f.write(data)
    for op in (lambda: d.read("bad.gr"), lambda: PDFPeakExtraction().loadpdf("bad.gr")):
        try:
            op()
            check(False, "accepted from a file:\n%s", bad)
        except SrMiseFileError as e:
            check("bad.gr" in str(e), "the message does not name the file: %s", e)
    os.unlink("bad.gr")
    note(c["how"])
    d.readStr(text)
    check(near(want["robs"], d.robs, 1e-14) and near(want["dGobs"], d.dGobs, 1e-14), "after a refused file")
    return n >= 2
