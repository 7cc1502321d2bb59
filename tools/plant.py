#!/usr/bin/env python3
"""Plant bugs: python3 tools/plant.py SPEC.py [ID ...]

A spec defines BUGS, a list of dict(id, prop, edits=[(file, old, new)], needs, what, demo).  Each is
tried in a scratch copy of /repo under /tmp: the patch must touch only lines of the original
repository, the stable tests must pass, the demonstration must pass without and fail with it.  Then
seeded/<id>/ is written, and the property's check is run against it (SURVIVED or CAUGHT).
"""

import concurrent.futures
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "dc98a55"
S = "src/diffpy/srmise/"
PY = "/opt/venv/bin/python"


def run(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, **(env or {}))
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def plant(bug, check=True):
    work = tempfile.mkdtemp(prefix="plant-")
    w = os.path.join(work, "repo")
    out = ["== %s (%s)" % (bug["id"], bug["prop"])]
    try:
        shutil.copytree("/repo", w, symlinks=True)
        env = {"PYTHONPATH": os.path.join(w, "src"), "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg"}
        d = os.path.join(work, "demo")
        os.mkdir(d)
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(bug["demo"].lstrip("\n"))
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        rc, o = run(["bash", os.path.join(d, "demo.sh")], w, env, 300)
        if rc:
            return out + ["BAD: demo fails on the clean tree: " + o[-1500:]]
        for fn, old, new in bug["edits"]:
            p = os.path.join(w, S, fn)
            t = open(p).read()
            if t.count(old) != 1:
                return out + ["BAD: %d matches in %s of %r" % (t.count(old), fn, old)]
            open(p, "w").write(t.replace(old, new))
        rc, patch = run(["git", "diff"], w)
        with open(os.path.join(d, "patch.diff"), "w") as f:
            f.write(patch)
        # which lines are removed, and are they original?
        fn, ln, removed = None, 0, 0
        for line in patch.split("\n"):
            if line.startswith("--- a/"):
                fn = line[6:]
            elif line.startswith("@@"):
                ln = int(line.split()[1][1:].split(",")[0]) - 1
            elif line.startswith("-"):
                ln += 1
                removed += 1
                _, b = run(["git", "blame", "-s", "-L%d,%d" % (ln, ln), "HEAD", "--", fn], "/repo")
                _, anc = run(["git", "merge-base", "--is-ancestor", b.split()[0].lstrip("^"), BASE], "/repo")
                if _:
                    out.append("WARN: line %s:%d was added by a fix" % (fn, ln))
            elif not line.startswith("+"):
                ln += 1
        if not removed:
            out.append("WARN: only insertions")
        rc, o = run([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-x", "--deselect", "nothing"], w, env)
        if " failed" in o or "5 passed" not in o:
            out.append("tests: " + o[-300:])
        rc, o = run(["bash", os.path.join(d, "demo.sh")], w, env, 300)
        if not rc:
            return out + ["BAD: demo passes with the patch"]
        out.append("demo: " + (o.strip().split("\n") or [""])[-1][:160])
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": bug["prop"], "needs": bug["needs"], "what_it_breaks": bug["what"]}, f, indent=1)
            f.write("\n")
        dest = os.path.join(HERE, "seeded", bug["id"])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(d, dest)
        if check:
            v = os.path.join(work, "verif")
            shutil.copytree(HERE, v, ignore=shutil.ignore_patterns("seeded", "replays", ".git", "evidence"))
            os.mkdir(os.path.join(v, "evidence"))
            rc, o = run([PY.replace("/opt/venv/bin/python", "python3"), "check.py", bug["prop"]], v, {"VERIF_REPO": w, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
            tail = [t for t in o.strip().split("\n") if t.startswith(("law ", "VIOLATION"))]
            out.append(("CAUGHT " if rc == 1 else "SURVIVED rc=%d " % rc) + " | ".join(t[:200] for t in tail))
        return out
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if len(sys.argv) > 2:
        bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
        for f in concurrent.futures.as_completed([ex.submit(plant, b) for b in bugs]):
            print("\n".join(f.result()), flush=True)


if __name__ == "__main__":
    main()
