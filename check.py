#!/usr/bin/env python3
"""Run the check of one property.

usage: check.py PROP [--tier quick|thorough] [--replay FILE] [--law NAME]

exit 0: held on everything explored; exit 1: "VIOLATION property=... replay=..."; other: error.
"""

import concurrent.futures
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from harness import boot  # noqa: E402

WORKER = os.path.join(HERE, "harness", "worker.py")
REPLAYS = os.path.join(HERE, "replays")
EVIDENCE = os.path.join(HERE, "evidence")
FINDINGS = os.path.join(HERE, "known-findings.txt")
HANG_S = 120.0  # a single case normally takes well under a second


def run_worker(args, env, timeout):
    p = subprocess.Popen(
        [boot.PYTHON, WORKER] + args,
        env=env,
        stdout=subprocess.DEVNULL,
        stderr=subprocess.PIPE,
        stdin=subprocess.DEVNULL,
        start_new_session=True,
    )
    try:
        _, err = p.communicate(timeout=timeout)
        return p.returncode, err.decode(errors="replace")[-4000:]
    except subprocess.TimeoutExpired:
        return None, "timeout"
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()


def replay_cases(prop, law, cases, work, timeout=HANG_S):
    """Return (status, error): status True failed, False passed, None hang, 'error'."""
    tag = hashlib.sha1(json.dumps(cases).encode()).hexdigest()[:12]
    cf = os.path.join(work, "case-%s.json" % tag)
    of = os.path.join(work, "res-%s.json" % tag)
    with open(cf, "w") as f:
        json.dump({"cases": cases}, f)
    if os.path.exists(of):
        os.unlink(of)
    rc, err = run_worker(["case", prop, law, of, cf], boot.child_env(), timeout)
    if rc is None:
        return None, "no result within %g s" % timeout
    if rc != 0 or not os.path.exists(of):
        return "error", "worker exit %s: %s" % (rc, err)
    with open(of) as f:
        r = json.load(f)
    return r["failed"], r.get("error")


def known():
    """Signatures of recorded findings: 'finding: property=C01 law=... case=SHA ...'."""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(t.split("=", 1) for t in line.split() if "=" in t)
                d["text"] = line
                out.append(d)
    return out


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = only = None
    prop = None
    it = iter(argv)
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--replay":
            replay = next(it)
        elif a == "--law":
            only = next(it)
        elif a == "--selftest":
            return selftest()
        else:
            prop = a
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = tempfile.mkdtemp(prefix="verif-check-")
    try:
        if replay:
            with open(replay) as f:
                r = json.load(f)
            status, err = replay_cases(r["property"], r["law"], r["cases"], work)
            if status == "error":
                print("replay could not run:", err)
                return 2
            if status is False:
                print("replay passes: property=%s law=%s" % (r["property"], r["law"]))
                return 0
            print("%s" % err)
            print("VIOLATION property=%s replay=%s" % (r["property"], os.path.abspath(replay)))
            return 1
        return run(prop, tier, seed, only, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def lawlist(prop):
    """Names, rules and weights of a property's laws, read in a separate process."""
    code = (
        "import sys,json;sys.path.insert(0,%r)\n"
        "from harness import boot;boot.setup();boot.quiet()\n"
        "import importlib\nm=importlib.import_module('props.%s')\n"
        "print('@@'+json.dumps([m.LAWS.assumptions,[[l.name,l.rule,l.quick,l.thorough] for l in m.LAWS.laws]]))"
    ) % (HERE, prop)
    p = subprocess.run([boot.PYTHON, "-c", code], env=boot.child_env(), capture_output=True, text=True, timeout=300)
    for line in p.stdout.splitlines():
        if line.startswith("@@"):
            return json.loads(line[2:])
    return None, p.stderr[-4000:]


def selftest():
    """Everything a check needs is present, and every check loads."""
    with open(os.path.join(HERE, "MANIFEST.json")) as f:
        props = [c["property"] for c in json.load(f)["checks"]]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for prop, (a, laws) in zip(props, ex.map(lawlist, props)):
            if a is None:
                print("cannot load check %s:\n%s" % (prop, laws))
                return 2
    print("%d checks load" % len(props))
    return 0


def run(prop, tier, seed, only, work):
    t0 = time.time()
    assumptions, laws = lawlist(prop)
    if assumptions is None:
        # The package under test does not import, or the harness itself is broken.
        print("cannot load check %s:\n%s" % (prop, laws))
        return 2
    env = boot.child_env()
    env.update(VERIF_SEED=str(seed), VERIF_TIER=tier)
    env.setdefault("VERIF_LAW_BUDGET", "300" if tier == "quick" else "3000")
    hard = float(env["VERIF_LAW_BUDGET"]) + 180
    jobs = []
    parts = 4  # independent searches of each law
    for name, rule, q, t in laws:
        if only and name != only:
            continue
        for part in range(parts):
            jobs.append((name, part, "gen"))
        if tier == "thorough":  # coverage-guided mutation of the same cases
            jobs.extend((name, parts + part, "fuzz") for part in range(2))
    fuzz_s = float(os.environ.get("VERIF_FUZZ_BUDGET", "240"))

    def one(job):
        name, part, mode = job
        out = os.path.join(work, "%s-%d.json" % (name, part))
        e = dict(env, VERIF_PART=str(part), VERIF_PARTS=str(parts))
        if mode == "fuzz":
            e["VERIF_LAW_BUDGET"] = str(fuzz_s)
        rc, err = run_worker([mode, prop, name, out], e, hard if mode == "gen" else fuzz_s + 180)
        if rc is None:
            cur = out + ".current"
            if os.path.exists(cur):
                return name, {"hang": json.load(open(cur))}
            return name, {"error": "worker timed out before its first case"}
        if rc != 0 or not os.path.exists(out):
            cur = out + ".current"
            if rc is not None and rc < 0 and os.path.exists(cur):
                return name, {"crash": json.load(open(cur)), "error": "worker died: %s %s" % (rc, err)}
            return name, {"error": "worker exit %s: %s" % (rc, err)}
        with open(out) as f:
            return name, json.load(f)

    results = []
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        for r in ex.map(one, jobs):
            results.append(r)

    rules = {name: rule for name, rule, _, _ in laws}
    knowns = known()
    errors, violations, kf = [], [], []
    evaluations, nontrivial, samples, labels, per, truncated = 0, set(), [], {}, {}, []
    for name, r in results:
        if r.get("error") and "crash" not in r:
            errors.append("%s: %s" % (name, r["error"]))
            continue
        if "hang" in r or "crash" in r:
            c = r.get("hang", r.get("crash"))
            status, err = replay_cases(prop, name, [c], work)
            if status in (True, None):
                violations.append((name, [c], err or "the case does not finish"))
            else:
                errors.append("%s: worker hung or died, not reproduced by its last case (%s)" % (name, err))
            continue
        evaluations += r["evaluations"]
        nontrivial |= {name + h for h in r["nontrivial"]}
        d = per.setdefault(name, {"evaluations": 0, "nontrivial": 0, "labels": {}})
        d["evaluations"] += r["evaluations"]
        d["nontrivial"] += len(r["nontrivial"])
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        if r.get("truncated"):
            truncated.append(name)
        if len([s for s in samples if s["law"] == name]) < 2:
            samples.extend({"law": name, "case": s} for s in r["samples"][:1])
        if r["fail"]:
            f = r["fail"]
            tries = [[json.loads(f["case"])], [json.loads(f["first"])], [json.loads(c) for c in f["history"]]]
            for cases in tries:
                status, err = replay_cases(prop, name, cases, work)
                if status in (True, None):
                    violations.append((name, cases, err or f["error"]))
                    break
            else:
                errors.append("%s: failure did not reproduce in a fresh process: %s" % (name, f["error"]))

    reported = 0
    seen = set()
    lines = []
    for name, cases, err in violations:
        sha = hashlib.sha1(json.dumps(cases, sort_keys=True).encode()).hexdigest()[:12]
        hit = [k for k in knowns if k.get("property") == prop and k.get("law") == name and k.get("case") == sha]
        if hit:
            kf.append("KNOWN-FINDING: property=%s %s" % (prop, hit[0]["text"]))
            continue
        reported += 1
        if name in seen:
            continue
        seen.add(name)
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%s-%s.json" % (prop, name, sha))
        with open(path, "w") as f:
            json.dump({"property": prop, "law": name, "error": err, "cases": cases}, f, indent=1)
        lines.append("law %s: %s" % (name, err))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))

    os.makedirs(EVIDENCE, exist_ok=True)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": "; ".join("%s: %s" % (n, rules[n]) for n in rules),
            "samples": samples[:12],
            "laws": per,
            "stopped_by_time_budget": truncated,
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": reported,
    }
    with open(os.path.join(EVIDENCE, "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)
    for line in kf:
        print(line)
    print(
        "%s %s seed=%d: %d cases, %d distinct non-trivial, %d laws, %.1f s"
        % (prop, tier, seed, evaluations, len(nontrivial), len(rules), time.time() - t0)
    )
    for name in sorted(per):
        print("  %-34s %6d cases %6d non-trivial  %s" % (name, per[name]["evaluations"], per[name]["nontrivial"], per[name]["labels"]))
    for e in errors:
        print("check error:", e)
    for line in lines:
        print(line)
    if lines:
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except Exception:
        import traceback

        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.exit(code)
