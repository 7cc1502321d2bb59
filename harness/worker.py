"""Run one law (generation) or one saved case (replay) in this process.

usage: worker.py gen  PROP LAW OUT.json   (environment: VERIF_SEED, VERIF_TIER)
       worker.py fuzz PROP LAW OUT.json   (coverage-guided, until VERIF_LAW_BUDGET)
       worker.py case PROP LAW OUT.json CASES.json
"""

import hashlib
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import boot  # noqa: E402

HISTORY = 300


class StopShrink(KeyboardInterrupt):
    pass


def load(prop, lawname):
    mod = importlib.import_module("props." + prop)
    for law in mod.LAWS.laws:
        if law.name == lawname:
            return mod, law
    raise LookupError("no law %s in %s" % (lawname, prop))


def dump(path, obj):
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f)
    os.replace(tmp, path)


def describe(exc):
    return "".join(traceback.format_exception_only(type(exc), exc)).strip()[:1500]


def gen(prop, lawname, out, guided=False):
    """Search by Hypothesis alone, or (guided) by coverage-guided mutation of the same strategy."""
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    part = int(os.environ.get("VERIF_PART", "0"))
    parts = int(os.environ.get("VERIF_PARTS", "1"))
    budget = float(os.environ.get("VERIF_LAW_BUDGET", "600"))
    mod, law = load(prop, lawname)
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.database import InMemoryExampleDatabase

    n = 3 * law.quick if tier == "quick" else law.thorough
    n = max(1, -(-n // parts))
    lawseed = int(hashlib.sha256(("%s/%s/%s/%s" % (seed, prop, lawname, part)).encode()).hexdigest()[:12], 16)

    st = {
        "evaluations": 0,
        "nontrivial": {},
        "labels": {},
        "samples": [],
        "fail": None,
        "failcount": 0,
        "t_fail": None,
        "truncated": False,
    }
    history = []
    current = out + ".current"
    t0 = time.time()
    shrink_budget = float(os.environ.get("VERIF_SHRINK_BUDGET", "40"))

    def note(label):
        st["labels"][label] = st["labels"].get(label, 0) + 1

    def body(case):
        now = time.time()
        if st["t_fail"] is not None and now - st["t_fail"] > shrink_budget:
            raise StopShrink()
        if st["fail"] is None and now - t0 > budget:
            st["truncated"] = True
            raise StopShrink()
        text = json.dumps(case, sort_keys=True)
        case = json.loads(text)  # laws only ever see plain JSON data
        with open(current, "w") as f:
            f.write(text)
        if st["fail"] is None:
            st["evaluations"] += 1
            history.append(text)
            del history[:-HISTORY]
        try:
            nontrivial = law.fn(case, note if st["fail"] is None else (lambda label: None))
        except Exception as exc:
            if type(exc).__module__.startswith("hypothesis"):
                raise
            st["failcount"] += 1
            if st["t_fail"] is None:
                st["t_fail"] = time.time()
            best = st["fail"]
            if best is None:
                st["fail"] = {
                    "case": text,
                    "error": describe(exc),
                    "trace": traceback.format_exc()[-3000:],
                    "history": list(history),
                    "first": text,
                }
            elif (len(text), text) <= (len(best["case"]), best["case"]):
                best.update(case=text, error=describe(exc), trace=traceback.format_exc()[-3000:])
            raise
        if st["fail"] is None and nontrivial:
            h = hashlib.sha1(text.encode()).hexdigest()[:16]
            if h not in st["nontrivial"]:
                st["nontrivial"][h] = 1
                if len(st["samples"]) < 3 and len(text) < 3000:
                    st["samples"].append(case)

    test = given(case=law.strategy())(body)
    test = settings(
        max_examples=n,
        database=InMemoryExampleDatabase() if guided else None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        phases=(Phase.reuse, Phase.shrink) if guided else (Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
    )(test)
    test = hypothesis.seed(lawseed)(test)
    err = None

    def finish():
        st["error"] = err
        st["law"] = lawname
        st["wall_s"] = time.time() - t0
        st["nontrivial"] = sorted(st["nontrivial"])
        dump(out, st)

    if guided:
        import atheris

        def one_input(data):
            nonlocal err
            try:
                test.hypothesis.fuzz_one_input(data)
            except StopShrink:
                pass
            except BaseException:
                if st["fail"] is None:
                    err = traceback.format_exc()[-4000:]
            if st["fail"] is not None:
                try:
                    test()  # shrinks what the fuzzer found
                except BaseException:
                    pass
            if st["fail"] is not None or st["truncated"] or err:
                st["truncated"] = False
                finish()
                sys.stdout.flush()
                os._exit(0)

        corpus = os.path.join(os.getcwd(), "corpus")
        os.mkdir(corpus)
        import random

        rnd = random.Random(lawseed)
        for i in range(24):  # inputs long enough for whole cases, to start from
            with open(os.path.join(corpus, "s%d" % i), "wb") as f:
                f.write(rnd.randbytes(rnd.choice([256, 1024, 4096])))
        argv = ["law", corpus, "-seed=%d" % (lawseed % 2**31 or 1), "-max_len=8192", "-len_control=0", "-timeout=0", "-rss_limit_mb=4000", "-verbosity=0", "-handle_segv=0"]
        atheris.Setup(argv, one_input, enable_python_coverage=True)
        atheris.Fuzz()
        return
    try:
        test()
    except StopShrink:
        pass
    except BaseException as exc:
        if st["fail"] is None:
            err = traceback.format_exc()[-4000:]
        if isinstance(exc, (SystemExit,)) and st["fail"] is None:
            pass
    finish()


def case(prop, lawname, out, casefile):
    mod, law = load(prop, lawname)
    with open(casefile) as f:
        cases = json.load(f)["cases"]
    res = {"failed": False, "error": None}
    for c in cases:
        try:
            law.fn(c, lambda label: None)
        except Exception as exc:
            res = {"failed": True, "error": describe(exc), "trace": traceback.format_exc()[-3000:]}
            last_failed = True
        else:
            last_failed = False
    # only the last case of a history decides
    res["failed"] = bool(cases) and last_failed
    dump(out, res)


if __name__ == "__main__":
    mode, prop, lawname, out = sys.argv[1:5]
    out = os.path.abspath(out)
    extra = [os.path.abspath(a) for a in sys.argv[5:]]
    boot.setup()
    if mode == "fuzz":
        import atheris

        with atheris.instrument_imports(include=["diffpy.srmise"], enable_loader_override=False):
            import pkgutil

            import diffpy.srmise

            for m in pkgutil.walk_packages(diffpy.srmise.__path__, "diffpy.srmise."):
                if not m.name.endswith("__main__"):
                    importlib.import_module(m.name)
    boot.quiet()
    if mode == "fuzz":
        gen(prop, lawname, out, guided=True)
    elif mode == "gen":
        gen(prop, lawname, out)
    else:
        case(prop, lawname, out, *extra)
