#!/usr/bin/env python3
"""Runs the check of each planted bug's property against it; writes tools/caught.json.

usage: [JOBS=2] [SEEDS=1,2] tools/recheck.py [ID ...]
"""

import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, "tools", "caught.json")
SEEDS = os.environ.get("SEEDS", "1").split(",")


def one(bug):
    d = os.path.join(HERE, "seeded", bug)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    work = tempfile.mkdtemp(prefix="recheck-")
    try:
        w, v = os.path.join(work, "repo"), os.path.join(work, "verif")
        shutil.copytree("/repo", w, symlinks=True)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=w, check=True)
        shutil.copytree(HERE, v, ignore=shutil.ignore_patterns("seeded", "replays", ".git", "evidence"))
        os.mkdir(os.path.join(v, "evidence"))
        laws, rcs = set(), []
        for seed in SEEDS:
            p = subprocess.run(["python3", "check.py", prop], cwd=v, env=dict(os.environ, VERIF_REPO=w, VERIF_SEED=seed), capture_output=True, text=True)
            rcs.append(p.returncode)
            for m in re.finditer(r"^law (\w+): ", p.stdout, re.M):
                laws.add(m.group(1))
            out = p.stdout
        return bug, prop, rcs, sorted(laws), out
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    bugs = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    res = json.load(open(OUT)) if os.path.exists(OUT) else {}
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
        for f in concurrent.futures.as_completed([ex.submit(one, b) for b in bugs]):
            bug, prop, rcs, laws, out = f.result()
            ok = all(r == 1 for r in rcs)
            res[bug] = ("%s: %s" % (prop, ", ".join(laws))) if ok else "missed (exit %s)" % rcs
            print(bug, res[bug], flush=True)
            if not ok:
                print(out[-500:])
    res = {k: v for k, v in sorted(res.items()) if os.path.isdir(os.path.join(HERE, "seeded", k))}
    json.dump(res, open(OUT, "w"), indent=1)


if __name__ == "__main__":
    main()
