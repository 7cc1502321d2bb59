"""Traces of an extraction, logging and live plotting."""

import contextlib
import logging
import os

import numpy as np
from hypothesis import strategies as st

from diffpy.srmise import srmiselog
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.srmiseerrors import SrMiseDataFormatError, SrMiseFileError, SrMiseLogError
from harness import gen, mc, ref, session
from harness.core import LawSet, check

LAWS = LawSet("C26", assumptions=["trace files are compared to 6 digits", "the level of the log never rises again once lowered, as documented nowhere but implemented"])

FILTERS = ["True", "self.counter < 3", "self.recursion > 0", "self.recursion == 0", "self.counter % 2 == 0", "len(args) > 1", "self.recursion > 0 or self.counter < 3"]
LEVELS = {"debug": 10, "info": 20, "warning": 30, "error": 40, "critical": 50}


@st.composite
def tracing(draw):
    g = {"r0": 1.0, "dr": 0.1, "n": draw(st.integers(6, 30))}
    n = g["n"]
    peak = st.fixed_dictionaries({"pos": gen.floats(1.2, 3.5), "width": gen.floats(0.1, 0.6), "area": gen.floats(0.5, 9)})
    clusters = draw(
        st.lists(
            st.fixed_dictionaries({"cut": ref.slices(n).filter(lambda s: s[0] < s[1]), "peaks": st.lists(peak, max_size=3)}),
            min_size=1,
            max_size=4,
        )
    )
    op = st.one_of(
        st.tuples(st.just("emit"), st.lists(st.integers(0, 3), min_size=1, max_size=3)),
        st.tuples(st.just("emit"), st.lists(st.integers(0, 3), min_size=1, max_size=3)),
        st.tuples(st.just("pushr")),
        st.tuples(st.just("popr")),
        st.tuples(st.just("pushc")),
        st.tuples(st.just("popc")),
        st.tuples(st.just("change"), st.integers(0, 3)),
        st.tuples(st.just("read"), st.integers(0, 9)),
        st.tuples(st.just("filter"), st.lists(st.sampled_from(FILTERS), min_size=1, max_size=2)),
        st.tuples(st.just("reset")),
    )
    return {
        "kind": draw(ref.KINDS),
        "grid": g,
        "base": draw(st.sampled_from(["missing", "none", "poly1"])),
        "bp": draw(st.lists(gen.floats(-0.5, 0.5), min_size=2, max_size=2)),
        "bfree": True,
        "clusters": clusters,
        "filter": draw(st.lists(st.sampled_from(["True", "True", *FILTERS]), min_size=1, max_size=2)),
        "store": draw(st.booleans()),
        "files": draw(st.sampled_from([None, "t", "sub/dir/t"])),
        "there": draw(st.booleans()),
        "ops": [list(o) for o in draw(st.lists(op, min_size=3, max_size=14))],
    }


def makecluster(c, i):
    pf = ref.make_pf(c["kind"], 0.7)
    r = ref.grid(c["grid"])
    y = 3 + np.sin(4 * r)
    k = c["clusters"][i]
    m = mc.peaks([dict(p, free=[True] * 3, removable=True) for p in k["peaks"]], pf)
    m.sort(key="position")
    return ModelCluster(m, mc.baseline(c), r, y, 0.3 * np.ones(len(r)), slice(*k["cut"]), mc.evaluator("AIC"), [pf])


def passes(filters, counter, recursion, args):
    env = {"True": True, "self.counter < 3": counter < 3, "self.recursion > 0": recursion > 0, "self.recursion == 0": recursion == 0}
    env["self.counter % 2 == 0"] = counter % 2 == 0
    env["len(args) > 1"] = args > 1
    env["self.recursion > 0 or self.counter < 3"] = recursion > 0 or counter < 3
    return all(env[f] for f in filters)


def content(m):
    """What a trace shows."""
    return {
        "peaks": [sorted((round(float(v), 12) for v in p.pars)) for p in m.model],
        "pars": [[float(v) for v in p.pars] for p in m.model],
        "base": None if m.baseline is None else [float(v) for v in m.baseline.pars] + [0.0],
        "r": m.r_cluster,
        "y": m.y_cluster,
        "e": m.error_cluster,
        "value": m.value(),
    }


@LAWS.law(tracing, quick=300, thorough=4000, rule="non-trivial: >= 2 traces kept or written, one of them of several clusters or within a recursion")
def traces(c, note):
    """Each trace which passes the filter is kept and written with its own number, recursion and clusters and all their peaks, and is read back so, whatever happens later."""
    dest = None if c["files"] is None else os.path.join(os.getcwd(), "trace", c["files"])
    kw = {} if dest is None else {"filebase": dest}
    if dest and c["there"]:  # the directory of the files may exist
        os.makedirs(os.path.dirname(dest), exist_ok=True)
    t = srmiselog.TracePeaks(filter=c["filter"], store=c["store"], **kw)
    mcs = [makecluster(c, i) for i in range(len(c["clusters"]))]
    filters = c["filter"]
    counter = recursion = call = 0
    kept, files, interesting = [], {}, False
    for op in c["ops"]:
        what = op[0]
        if what == "emit":
            ids = list(dict.fromkeys(i % len(mcs) for i in op[1]))
            args = [mcs[i] for i in ids]
            before = [content(m) for m in args]
            t.emit(*args)
            check(session.diff(before, [content(m) for m in args], rtol=0) is None, "emitting changed a cluster")
            if passes(filters, counter, recursion, len(args)):
                pars = sorted(([float(v) for v in p.pars] for m in args for p in m.model), key=lambda p: p[0])
                want = {"counter": counter, "recursion": recursion, "clusters": [[s.start, s.stop] for s in (m.slice for m in args)], "pars": pars}
                want["base"] = None if args[0].baseline is None else [float(v) for v in args[0].baseline.pars]
                if c["store"]:
                    kept.append(want)
                if dest:
                    files["%s_%d" % (dest, counter)] = want
                counter += 1
                interesting = interesting or len(args) > 1 or recursion > 0
        elif what == "pushr":
            recursion += 1
            check(t.pushr() == recursion, "recursion after pushr")
        elif what == "popr":
            recursion -= 1
            check(t.popr() == recursion, "recursion after popr")
        elif what == "pushc":
            if call == 0:
                counter = recursion = 0
            call += 1
            check(t.pushc() == call, "depth after pushc")
        elif what == "popc":
            if call == 0:
                continue
            call -= 1
            check(t.popc() == call, "depth after popc")
        elif what == "change":
            # later work on a cluster which was traced
            m = mcs[op[1] % len(mcs)]
            for p in m.model:
                p.pars[0] += 0.01
                p.pars[2] *= 1.1
            if m.baseline is not None and len(m.baseline.pars):
                m.baseline.pars[0] += 0.5
        elif what == "filter":
            filters = op[1]
            t.filter = filters
        elif what == "reset":
            counter = recursion = call = 0
            t.reset_trace()
        elif what == "read":
            if not files:
                continue
            name = sorted(files)[op[1] % len(files)]
            got = t.read(name)
            same(got, files[name], c, 1e-5)
            note("read back")
        check((t.counter, t.recursion) == (counter, recursion), "after %s: counter and recursion %s, expected %s", op, (t.counter, t.recursion), (counter, recursion))
        check(len(t.trace) == len(kept), "%d traces kept, expected %d", len(t.trace), len(kept))
        for got, want in zip(t.trace, kept):
            same(got, want, c, 1e-12)
        if dest:
            d = os.path.dirname(dest)
            found = sorted(os.path.join(d, f) for f in os.listdir(d))
            check(found == sorted(files), "files %s, expected %s", found, sorted(files))
    fresh = srmiselog.TracePeaks()
    for name, want in files.items():
        same(fresh.read(name), want, c, 1e-5)
    n = max(len(files), len(kept))
    # a damaged file is refused
    for name in list(files)[:1]:
        with open(name) as f:
            s = f.read()
        for field in ("counter=", "recursion=", "clusters=", "### ModelCluster"):
            bad = s.replace(field, "gone", 1)
            with open(name, "w") as f:
                f.write(bad)
            for f, arg, err in ((fresh.readstr, bad, SrMiseDataFormatError), (fresh.read, name, SrMiseFileError)):
                try:
                    f(arg)
                except err:
                    continue
                raise AssertionError("a trace without %r is read" % field)
    if dest:
        import shutil

        shutil.rmtree(os.path.join(os.getcwd(), "trace"), True)
    return n >= 2 and interesting


def same(got, want, c, rtol):
    check((got["counter"], got["recursion"]) == (want["counter"], want["recursion"]), "number and recursion %s, expected %s", got, want)
    cl = [[s.start, s.stop] for s in got["clusters"]]
    check(cl == want["clusters"], "clusters %s, expected %s", cl, want["clusters"])
    m = got["mc"]
    r = ref.grid(c["grid"])
    check(m.size == len(r) and ref.close(m.r_cluster, r, 1e-5), "a trace covers all data")
    pars = sorted(([float(v) for v in p.pars] for p in m.model), key=lambda p: p[0])
    d = session.diff(want["pars"], pars, "peaks", rtol) if len(pars) == len(want["pars"]) else "number of peaks"
    if d and len(pars) == len(want["pars"]):
        # peaks at one position in any order
        d = session.diff(sorted(want["pars"]), sorted(pars), "peaks", rtol)
    check(d is None, "peaks %s, expected %s", pars, want["pars"])
    b = None if m.baseline is None else [float(v) for v in m.baseline.pars]
    check((b is None) == (want["base"] is None) and (b is None or ref.close(b, want["base"], rtol)), "baseline %s, expected %s", b, want["base"])


@st.composite
def watched(draw):
    from props import C20

    return {
        "truth": draw(C20.truth(0.2, 1.3))[: draw(st.sampled_from([1, 2, 3]))],
        "kind": draw(ref.KINDS),
        "qmax": draw(st.sampled_from([0.0, 0.0, 0.0, 25.0])),
        "dr": draw(st.sampled_from([0.05, 0.08])),
        "base": draw(st.sampled_from(["none", "slope"])),
        "slope": draw(gen.floats(0, 0.6)),
        "level": draw(st.sampled_from([0.02, 0.05])),
        "how": draw(st.sampled_from(["extract", "extract", "extract_single"])),
        "filter": draw(st.sampled_from([["True"], ["self.recursion==1"], ["self.counter < 3"]])),
        "twice": draw(st.booleans()),
    }


@LAWS.law(watched, quick=25, thorough=700, rule="non-trivial: >= 3 traces and >= 1 peak")
def extraction(c, note):
    """Tracing an extraction does not change its result; traces are numbered consecutively, start afresh with each extraction, and the last shows the result."""
    from props import C20

    if c["how"] == "extract_single":
        c["qmax"] = 0.0
    pf, r, y, b = C20.data(c)

    def run():
        p = PDFPeakExtraction()
        p.setdata(r, y, None, c["level"] * np.ptp(y) * np.ones(len(r)))
        p.setvars(quiet=True, pf=[pf], cres=0.2, qmax=c["qmax"], **({} if b is None else {"baseline": b}))
        getattr(p, c["how"])()
        return p

    want = session.cluster_of(run().extracted, run())
    try:
        t = srmiselog.settracer(filter=c["filter"], store=True)
        check(srmiselog.tracer is t, "the tracer set is not the one in use")
        ends = []
        for _ in range(1 + c["twice"]):
            p = run()
            ends.append(len(t.trace))
            d = session.diff(want, session.cluster_of(p.extracted, p), "result", 1e-9)
            check(d is None, "a traced extraction differs: %s", d)
            check(t.recursion == 0, "recursion %r after the extraction", t.recursion)
    finally:
        srmiselog.settracer()
    start = 0
    for end in ends:
        part = t.trace[start:end]
        check([q["counter"] for q in part] == list(range(len(part))), "numbers of the traces %s", [q["counter"] for q in part])
        if c["how"] == "extract":
            check(all(q["recursion"] >= 0 for q in part), "recursion of the traces")
        start = end
    if c["filter"] == ["self.recursion==1"]:
        check(all(q["recursion"] == 1 for q in t.trace), "recursion of the traces")
    if c["filter"] == ["self.counter < 3"]:
        check(len(t.trace) <= 3 * len(ends), "%d traces", len(t.trace))
    if c["filter"] == ["True"] and c["how"] == "extract" and c["qmax"] > 0:
        last = t.trace[-1]["mc"]
        d = session.diff([[float(v) for v in q.pars] for q in p.extracted.model], [[float(v) for v in q.pars] for q in last.model], "last trace", 1e-9)
        check(d is None, "the last trace is not the result: %s", d)
        note("last is the result")
    for q in t.trace:
        m = q["mc"]
        check(m.size == len(m.r_data), "a trace covers all data")
        for s in q["clusters"]:
            a, b_, st_ = s.indices(m.size)
            check(0 <= a <= b_ <= m.size and (s.stop is None or s.stop <= m.size), "cluster %s of %d points", s, m.size)
    return len(t.trace) >= 3 and len(want["peaks"]) > 0


@st.composite
def logs(draw):
    level = st.one_of(st.sampled_from(sorted(LEVELS)), st.sampled_from([10, 15, 20, 25, 30, 40, 50]))
    op = st.one_of(
        st.tuples(st.just("add"), level, st.sampled_from(["%(message)s", "%(levelname)s %(message)s"])),
        st.tuples(st.just("add"), st.none(), st.none()),
        st.tuples(st.just("file"), level),
        st.tuples(st.just("console"), level),
        st.tuples(st.just("log"), st.sampled_from([5, 10, 15, 20, 30, 40, 50])),
        st.tuples(st.just("log"), st.sampled_from([10, 20, 30, 40, 50])),
        st.tuples(st.just("live"), st.sampled_from([True, False, 0, 1, "yes", None]), st.sampled_from([True, False, 1, None, "-"])),
    )
    return {"ops": [list(o) for o in draw(st.lists(op, min_size=3, max_size=16))]}


@contextlib.contextmanager
def fresh(stream):
    """The state of logging as after import, with the console going to the stream."""
    log = logging.getLogger("diffpy.srmise")
    handlers, level, disabled = list(log.handlers), log.level, logging.root.manager.disable
    live = srmiselog.liveplots, srmiselog.wait
    chlevel = [h.level for h in handlers]
    streams = [getattr(h, "stream", None) for h in handlers]
    logging.disable(0)
    log.setLevel(logging.INFO)
    for h in handlers:
        h.setLevel(logging.INFO)
        h.setStream(stream)
    srmiselog.fh = None
    try:
        yield log
    finally:
        for h in list(log.handlers):
            if h not in handlers:
                log.removeHandler(h)
                h.close()
        for h, v, s in zip(handlers, chlevel, streams):
            h.setLevel(v)
            h.setStream(s)
        log.setLevel(level)
        logging.disable(disabled)
        srmiselog.fh = None
        srmiselog.liveplots, srmiselog.wait = live


@LAWS.law(logs, quick=300, thorough=4000, rule="non-trivial: a message below the level of the console reaches a file, or one is held back")
def logging_(c, note):
    """Each message reaches the console and the log files whose level it has, in the format asked for; levels are names or numbers."""
    import io

    stream = io.StringIO()
    console, files = 20, []  # levels; path, level, format, messages
    expected, live, nontrivial = [], (srmiselog.liveplots, srmiselog.wait), False
    with fresh(stream) as log:
        floor = 20  # least level let through at all: the lowest ever asked for
        for n, op in enumerate(c["ops"]):
            what = op[0]
            if what == "add":
                path = os.path.join(os.getcwd(), "log%d.txt" % len(files))
                kw = {} if op[1] is None else {"level": op[1], "format": op[2]}
                srmiselog.addfilelog(path, **kw)
                lv = 20 if op[1] is None else LEVELS.get(op[1], op[1])
                files.append([path, lv, op[2] or "%(message)s", []])
                floor = min(floor, lv)
            elif what == "file":
                try:
                    srmiselog.setfilelevel(op[1])
                except SrMiseLogError:
                    check(not files, "no file log, although %d were added", len(files))
                    continue
                check(files, "setting the level of a log file which does not exist")
                files[-1][1] = LEVELS.get(op[1], op[1])
                floor = min(floor, files[-1][1])
            elif what == "console":
                srmiselog.setlevel(op[1])
                console = LEVELS.get(op[1], op[1])
                floor = min(floor, console)
            elif what == "log":
                log.log(op[1], "message %d", n)
                for f in files:
                    if op[1] >= f[1] and op[1] >= floor:
                        f[3].append(f[2] % {"message": "message %d" % n, "levelname": logging.getLevelName(op[1])})
                        nontrivial = nontrivial or op[1] < console
                    else:
                        nontrivial = True
                if op[1] >= console:
                    expected.append("message %d" % n)
            else:
                args = [op[1]] if op[2] == "-" else op[1:]
                good = all(isinstance(a, bool) for a in args)
                try:
                    srmiselog.liveplotting(*args)
                except ValueError:
                    check(not good, "liveplotting%s is refused", tuple(args))
                    live = None
                else:
                    check(good, "liveplotting%s is accepted", tuple(args))
                    live = (args[0], args[1] if len(args) > 1 else False)
                if live:
                    check((srmiselog.liveplots, srmiselog.wait) == live, "live plotting %s, expected %s", (srmiselog.liveplots, srmiselog.wait), live)
        for path, lv, fmt, want in files:
            with open(path) as f:
                got = f.read().splitlines()
            check(got == want, "log at level %s: %s, expected %s", lv, got, want)
        check(stream.getvalue().splitlines() == expected, "console: %s, expected %s", stream.getvalue().splitlines(), expected)
    for path, *_ in files:
        os.unlink(path)
    return nontrivial
