"""Saved sessions."""

import os

from hypothesis import strategies as st

from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peakextraction import PeakExtraction
from harness import session
from harness.core import LawSet, check

LAWS = LawSet(
    "C15",
    assumptions=[
        "numbers of the data, errors and the clustering resolution are saved to 6 digits; parameters and settings fully",
        "baselines given by an arbitrary Python function cannot be saved",
    ],
)


def exact(d):
    """The values which are saved in full."""
    out = {"initial": d["initial"], "baseline": d["baseline"], "rng": d["rng"], "meta": d.get("meta")}
    if d["extracted"] is not None:
        out["peaks"] = d["extracted"]["peaks"]
        out["exbase"] = d["extracted"]["baseline"]
    return out


@LAWS.law(session.session, quick=500, rule="non-trivial: peaks, a baseline, and a result")
def roundtrip(c, note):
    """What is written is read back: data, settings, functions, peaks with their flags, and results; writing changes nothing."""
    s = session.build(c)
    before = session.state(s, c["pdf"])
    text = s.writestr()
    check(not session.diff(before, session.state(s, c["pdf"]), rtol=0), "writing changed the session")
    t = PDFPeakExtraction() if c["pdf"] else PeakExtraction()
    # reading replaces whatever there was
    t.setdata([1.0, 2.0, 3.0], [1.0, 2.0, 1.0])
    t.cres, t.rng, t.extraction_type = 9.0, [1.0, 2.0], "fit"
    t.readstr(text)
    got = session.state(t, c["pdf"])
    d = session.diff(before, got)
    check(not d, "written and read: %s", d)
    d = session.diff(exact(before), exact(got), rtol=1e-14)
    check(not d, "saved in full: %s", d)
    with open("s.srmise", "w") as f:
        f.write("junk")
    s.write("s.srmise")
    u = PDFPeakExtraction() if c["pdf"] else PeakExtraction()
    check(u.read("s.srmise") is u, "read returns the session")
    d = session.diff(got, session.state(u, c["pdf"]), rtol=0)
    check(not d, "from a file: %s", d)
    os.unlink("s.srmise")
    # once read, saving again loses nothing
    t.write("t.srmise")
    v = PDFPeakExtraction() if c["pdf"] else PeakExtraction()
    v.read("t.srmise")
    os.unlink("t.srmise")
    d = session.diff(got, session.state(v, c["pdf"]), rtol=1e-14)
    check(not d, "saved again: %s", d)
    full = c["result"] is not None and bool(c["result"]["peaks"]) and c["base"] is not None
    if c["result"] is not None:
        note("result")
    if any(f["ripple"] for f in c["funcs"]):
        note("ripples")
    return full


@LAWS.law(session.session, quick=250, rule="non-trivial: with peaks")
def cluster(c, note):
    """The result of a session can be saved by itself."""
    if c["result"] is None:
        return False
    s = session.build(c)
    m = s.extracted
    s.pf = None
    before = session.cluster_of(m, s)
    text = m.writestr()
    n = ModelCluster.factory(text)
    d = session.diff(before, session.cluster_of(n, s))
    check(not d, "written and read: %s", d)
    k = ModelCluster.factory(n.writestr())
    d = session.diff(session.cluster_of(n, s), session.cluster_of(k, s), rtol=1e-14)
    check(not d, "saved again: %s", d)
    # peaks which had the same function still do
    for a in range(len(m.model)):
        for b in range(a):
            same = m.model[a].owner() is m.model[b].owner()
            check((n.model[a].owner() is n.model[b].owner()) == same, "functions of peaks %d and %d", a, b)
    return bool(c["result"]["peaks"])


@LAWS.law(
    lambda: st.fixed_dictionaries({"a": session.session(), "b": session.session()}),
    quick=100,
    rule="non-trivial: both with results",
)
def reread(c, note):
    """A session object used again for another file holds nothing of the former."""
    if c["a"]["pdf"] != c["b"]["pdf"]:
        c["b"] = c["a"]
    pdf = c["a"]["pdf"]
    texts = [session.build(k).writestr() for k in (c["a"], c["b"])]
    t = PDFPeakExtraction() if pdf else PeakExtraction()
    t.readstr(texts[0])
    t.readstr(texts[1])
    u = PDFPeakExtraction() if pdf else PeakExtraction()
    u.readstr(texts[1])
    d = session.diff(session.state(u, pdf), session.state(t, pdf), rtol=0)
    check(not d, "read again: %s", d)
    return c["a"]["result"] is not None and c["b"]["result"] is not None
