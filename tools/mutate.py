#!/usr/bin/env python3
"""Mutation analysis of the checks.

  mutate.py collect DIR [PROP ...]   generate cases of every law, with the lines each one reaches
  mutate.py run DIR [FILE ...]       run the cases which reach a mutated line against each mutant
  mutate.py check KEY PROP...        run the full quick checks against one mutant
  mutate.py show DIR                 list the mutants which survive

DIR is scratch.  A mutant is a small change of the syntax tree of one file of diffpy.srmise.
"""

import ast
import glob
import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
if sys.prefix != "/opt/venv":
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)
os.environ.update(PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
from harness import boot  # noqa: E402

SRC = os.path.join(boot.REPO, "src", "diffpy", "srmise")
PER_LINE = 10
BUDGET = 60


def props():
    return sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(HERE, "props", "C*.py")))


# -- collect ------------------------------------------------------------------------------------


def collect_law(prop, lawname, out, limit=90):
    import importlib

    from hypothesis import HealthCheck, Phase, given, seed, settings

    mod = importlib.import_module("props." + prop)
    law = [x for x in mod.LAWS.laws if x.name == lawname][0]
    lines = set()
    mon = sys.monitoring
    mon.use_tool_id(3, "lines")

    def hit(code, line):
        fn = code.co_filename
        if fn.startswith(SRC):
            lines.add((fn[len(SRC) + 1 :], line))
        return mon.DISABLE

    mon.register_callback(3, mon.events.LINE, hit)
    count = {}
    kept = []
    t0 = time.time()

    class Stop(BaseException):
        pass

    def body(case):
        if time.time() - t0 > limit:
            raise Stop()
        text = json.dumps(case, sort_keys=True)
        lines.clear()
        mon.set_events(3, mon.events.LINE)
        mon.restart_events()
        t = time.time()
        try:
            nt = law.fn(json.loads(text), lambda label: None)
        except Exception as e:
            if type(e).__module__.startswith("hypothesis"):
                raise
            print("FAIL", prop, lawname, repr(e)[:200], flush=True)
            return
        finally:
            mon.set_events(3, 0)
        t = time.time() - t
        new = [x for x in lines if count.get(x, 0) < PER_LINE]
        if new or nt and len(kept) < 60:
            for x in lines:
                count[x] = count.get(x, 0) + 1
            kept.append({"case": json.loads(text), "lines": sorted(lines), "t": t, "nt": bool(nt)})

    test = given(case=law.strategy())(body)
    test = settings(max_examples=law.quick, database=None, deadline=None, phases=(Phase.generate,), suppress_health_check=list(HealthCheck))(test)
    try:
        seed(7)(test)()
    except Stop:
        pass
    with open(os.path.join(out, "%s.%s.json" % (prop, lawname)), "w") as f:
        json.dump(kept, f)
    print(prop, lawname, len(kept), "cases", round(time.time() - t0, 1), "s", flush=True)


def forked(jobs, n, timeout):
    """jobs: iterable of (key, function).  Yields (key, status, seconds)."""
    running = {}
    jobs = iter(jobs)
    done = False
    while running or not done:
        while not done and len(running) < n:
            try:
                key, fn = next(jobs)
            except StopIteration:
                done = True
                break
            pid = os.fork()
            if pid == 0:
                code = 70
                try:
                    os.setsid()
                    code = fn()
                    sys.stdout.flush()
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code or 0)
            running[pid] = (key, time.time())
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid and pid in running:
            key, t = running.pop(pid)
            yield key, status, time.time() - t
            continue
        for p, (key, t) in list(running.items()):
            if time.time() - t > timeout:
                try:
                    os.killpg(p, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        time.sleep(0.005)


def collect(out, which):
    import importlib

    boot.setup()
    boot.quiet()
    os.makedirs(out, exist_ok=True)
    jobs = []
    for p in which or props():
        mod = importlib.import_module("props." + p)
        for law in mod.LAWS.laws:
            def job(p=p, name=law.name):
                boot.setup()
                collect_law(p, name, out)
            jobs.append(((p, law.name), job))
    for key, status, t in forked(jobs, 8, 1800):
        if status:
            print("collect", key, "status", status)


# -- mutants ------------------------------------------------------------------------------------

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
SWAP = {"min": "max", "max": "min", "any": "all", "all": "any", "floor": "ceil", "ceil": "floor", "argmin": "argmax", "argmax": "argmin", "append": "extend", "sin": "cos", "cos": "sin"}


class Mutator:
    """Enumerates the mutations of a tree; each is a function which changes it and one which undoes it."""

    def __init__(self, tree):
        self.out = []
        self.visit(tree, None, None)

    def add(self, node, stmt, what, do, undo):
        self.out.append((stmt, getattr(node, "lineno", stmt.lineno if stmt else 0), what, do, undo))

    def field(self, obj, name, new, node, stmt, what):
        old = getattr(obj, name)
        self.add(node, stmt, what, lambda: setattr(obj, name, new), lambda: setattr(obj, name, old))

    def item(self, lst, i, new, node, stmt, what):
        old = lst[i]

        def do():
            lst[i] = new

        def undo():
            lst[i] = old

        self.add(node, stmt, what, do, undo)

    def visit(self, node, stmt, fun):
        if isinstance(node, ast.stmt):
            stmt = node
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            s = ast.unparse(node.value.func)
            if s.startswith(("logger.", "logging.", "print")):
                return
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(node, ast.If) and "__main__" in ast.unparse(node.test):
            return
        if isinstance(node, ast.Raise):
            return
        if isinstance(node, ast.FunctionDef):
            fun = node
        for name in ("body", "orelse", "finalbody"):
            lst = getattr(node, name, None)
            if isinstance(lst, list):
                for i, s in enumerate(lst):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and fun and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        if isinstance(s, ast.Expr) and ast.unparse(s).startswith(("logger", "print")):
                            continue
                        self.item(lst, i, ast.copy_location(ast.Pass(), s), s, s, "delete: " + ast.unparse(s)[:80])
                    elif isinstance(s, ast.Raise):
                        self.item(lst, i, ast.copy_location(ast.Pass(), s), s, s, "delete: " + ast.unparse(s)[:80])
                    elif isinstance(s, (ast.Break, ast.Continue)):
                        new = ast.Continue() if isinstance(s, ast.Break) else ast.Break()
                        self.item(lst, i, ast.copy_location(new, s), s, s, "swap break/continue")
                    elif isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Constant):
                        self.field(s, "value", ast.copy_location(ast.Constant(None), s), s, s, "return None")
        if isinstance(node, (ast.If, ast.IfExp, ast.While)):
            if isinstance(node, (ast.If, ast.IfExp)):
                self.field(node, "test", ast.copy_location(ast.Constant(True), node.test), node.test, stmt, "cond True: " + ast.unparse(node.test)[:60])
            self.field(node, "test", ast.copy_location(ast.Constant(False), node.test), node.test, stmt, "cond False: " + ast.unparse(node.test)[:60])
        if isinstance(node, ast.Compare):
            for i, op in enumerate(node.ops):
                for new in CMP.get(type(op), []):
                    self.item(node.ops, i, new(), node, stmt, "%s -> %s in %s" % (type(op).__name__, new.__name__, ast.unparse(node)[:60]))
        if isinstance(node, ast.BoolOp):
            self.field(node, "op", ast.Or() if isinstance(node.op, ast.And) else ast.And(), node, stmt, "and/or in " + ast.unparse(node)[:60])
            for i in range(len(node.values)):
                rest = node.values[:i] + node.values[i + 1 :]
                if len(rest) >= 1:
                    old = node.values
                    def do(node=node, rest=rest):
                        node.values = rest + rest[:1] if len(rest) == 1 else rest
                    def undo(node=node, old=old):
                        node.values = old
                    self.add(node, stmt, "drop %s of %s" % (ast.unparse(old[i])[:30], ast.unparse(node)[:60]), do, undo)
        if isinstance(node, (ast.BinOp, ast.AugAssign)):
            new = BIN.get(type(node.op))
            isstr = isinstance(node, ast.BinOp) and (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str) or isinstance(node.right, ast.Constant) and isinstance(node.right.value, str))
            if new and not isstr:
                self.field(node, "op", new(), node, stmt, "%s -> %s in %s" % (type(node.op).__name__, new.__name__, ast.unparse(node)[:60]))
        if isinstance(node, ast.UnaryOp):
            if isinstance(node.op, ast.USub):
                self.field(node, "op", ast.UAdd(), node, stmt, "drop minus in " + ast.unparse(node)[:60])
            elif isinstance(node.op, ast.Not):
                new = ast.copy_location(ast.Call(ast.Name("bool", ast.Load()), [node.operand], []), node)
                self.replace_child.append((node, new)) if hasattr(self, "replace_child") else None
        if isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                self.field(node, "value", not v, node, stmt, "%s -> %s" % (v, not v))
            elif isinstance(v, (int, float)):
                self.field(node, "value", v + 1, node, stmt, "%r -> %r" % (v, v + 1))
                if v not in (0, 1):
                    self.field(node, "value", v * 0.9 if isinstance(v, float) else v - 1, node, stmt, "%r less" % v)
        if isinstance(node, ast.Attribute) and node.attr in SWAP and isinstance(node.ctx, ast.Load):
            self.field(node, "attr", SWAP[node.attr], node, stmt, "%s -> %s" % (node.attr, SWAP[node.attr]))
        if isinstance(node, ast.Name) and node.id in SWAP and isinstance(node.ctx, ast.Load):
            self.field(node, "id", SWAP[node.id], node, stmt, "%s -> %s" % (node.id, SWAP[node.id]))
        if isinstance(node, ast.Slice):
            for part in ("lower", "upper", "step"):
                if getattr(node, part) is not None:
                    self.field(node, part, None, node, stmt, "drop %s of [%s]" % (part, ast.unparse(node)))
        if isinstance(node, ast.Call):
            for i, k in enumerate(node.keywords):
                if k.arg:
                    old = node.keywords
                    rest = old[:i] + old[i + 1 :]
                    self.add(node, stmt, "drop argument %s of %s" % (k.arg, ast.unparse(node)[:60]), lambda node=node, rest=rest: setattr(node, "keywords", rest), lambda node=node, old=old: setattr(node, "keywords", old))
            if len(node.args) >= 2:
                old = node.args
                new = old[:]
                new[0], new[1] = new[1], new[0]
                self.field(node, "args", new, node, stmt, "swap arguments of " + ast.unparse(node)[:60])
            if isinstance(node.func, ast.Attribute) and node.func.attr == "copy" and not node.args:
                pass
            s = ast.unparse(node.func)
            if s.startswith(("logger.", "print")):
                return
            if (s.endswith((".copy", "deepcopy", "np.array", "list", "abs", "sorted", "np.abs", "sort", "strip", "float", "int"))) and (len(node.args) == 1 or s.endswith(".copy")):
                inner = node.args[0] if node.args else node.func.value
                # handled by the parent: replace the call by its argument
                self.pending.append((node, inner, stmt, "%s(x) -> x: %s" % (s, ast.unparse(node)[:60])))
        for name, value in ast.iter_fields(node):
            if isinstance(value, list):
                for i, v in enumerate(value):
                    if isinstance(v, ast.AST):
                        self.pending = []
                        self.child(v, stmt, fun, lambda new, value=value, i=i: value.__setitem__(i, new))
            elif isinstance(value, ast.AST):
                self.child(value, stmt, fun, lambda new, node=node, name=name: setattr(node, name, new))

    pending = []

    def child(self, v, stmt, fun, put):
        if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not):
            new = v.operand
            self.add(v, stmt, "drop not in " + ast.unparse(v)[:60], lambda: put(new), lambda: put(v))
        if isinstance(v, ast.Call):
            s = ast.unparse(v.func)
            if (s.endswith((".copy", "deepcopy", "np.array", "list", "abs", "sorted", "float", "int", "strip"))) and len(v.args) <= 1 and not v.keywords:
                inner = v.args[0] if v.args else (v.func.value if isinstance(v.func, ast.Attribute) else None)
                if inner is not None:
                    self.add(v, stmt, "unwrap " + ast.unparse(v)[:60], lambda: put(inner), lambda: put(v))
        self.visit(v, stmt, fun)


def mutants(fn):
    text = open(os.path.join(SRC, fn)).read()
    tree = ast.parse(text)
    m = Mutator(tree)
    lines = text.split("\n")
    for n, (stmt, lineno, what, do, undo) in enumerate(m.out):
        if stmt is None:
            continue
        end = stmt.end_lineno
        if hasattr(stmt, "body"):
            end = max(stmt.lineno, stmt.body[0].lineno - 1)
        isdef = isinstance(stmt, (ast.FunctionDef, ast.ClassDef))
        span = (stmt.lineno, stmt.end_lineno if isdef else end)
        do()
        try:
            src = ast.unparse(ast.fix_missing_locations(tree))
            compile(src, fn, "exec")
        except Exception:
            src = None
        undo()
        if src:
            yield "%s:%d:%d" % (fn, lineno, n), span, what, lines[lineno - 1].strip(), src
    del m


# -- run ----------------------------------------------------------------------------------------


def run_mutant(key, fn, src, work):
    """Exit code: 0 survived, 1 killed."""
    import importlib
    import importlib.abc
    import importlib.util

    boot.setup()
    name = "diffpy.srmise" + ("." + fn[:-3].replace("/", ".") if fn != "__init__.py" else "")
    if name.endswith(".__init__"):
        name = name[:-9]
    path = os.path.join(SRC, fn)

    class Loader(importlib.abc.SourceLoader):
        def get_filename(self, fullname):
            return path

        def get_data(self, p):
            return src.encode()

        def path_stats(self, p):
            raise OSError

    class Finder(importlib.abc.MetaPathFinder):
        def find_spec(self, fullname, p, target=None):
            if fullname == name:
                return importlib.util.spec_from_file_location(fullname, path, loader=Loader(), submodule_search_locations=[os.path.dirname(path)] if path.endswith("__init__.py") else None)

    sys.meta_path.insert(0, Finder())
    null = os.open("/dev/null", os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    t0 = time.time()
    try:
        for prop, law, case in work:
            mod = importlib.import_module("props." + prop)
            boot.quiet()
            fnc = [x for x in mod.LAWS.laws if x.name == law][0].fn
            fnc(case, lambda label: None)
            if time.time() - t0 > BUDGET:
                return 2
    except BaseException as e:
        if os.environ.get("MUT_DEBUG"):
            traceback.print_exc(file=open("/tmp/mut/last", "w"))
        return 1
    return 0


def run(out, files, sample=None):
    import numpy  # noqa: F401  (imported before forking)
    import scipy.optimize, scipy.interpolate, scipy.fft  # noqa: F401, E401
    import matplotlib.pyplot, mpl_toolkits.mplot3d  # noqa: F401, E401
    sys.path.append(boot.TOOLS)
    import hypothesis, hypothesis.strategies  # noqa: F401, E401

    cases = []
    byline = {}
    for f in sorted(glob.glob(os.path.join(out, "C*.json"))):
        prop, law = os.path.basename(f)[:-5].split(".")
        for c in json.load(open(f)):
            i = len(cases)
            cases.append((prop, law, c["case"], c["t"]))
            for fn, line in c["lines"]:
                byline.setdefault((fn, line), []).append(i)
    print(len(cases), "cases", flush=True)
    allfiles = files or sorted(os.path.relpath(p, SRC) for p in glob.glob(SRC + "/**/*.py", recursive=True))
    res = {}
    rp = os.path.join(out, "results.jsonl")
    if os.path.exists(rp) and not files:
        for line in open(rp):
            d = json.loads(line)
            res[d["key"]] = d
    meta = {}
    rnd = random.Random(3)

    def jobs():
        for fn in allfiles:
            if fn in ("version.py",):
                continue
            for key, span, what, text, src in mutants(fn):
                if key in res:
                    continue
                ids = set()
                for line in range(span[0], span[1] + 1):
                    ids.update(byline.get((fn, line), ()))
                # a few of each law first, then the rest, cheap ones first
                bylaw = {}
                for i in ids:
                    bylaw.setdefault(cases[i][:2], []).append(i)
                order = []
                for v in bylaw.values():
                    rnd.shuffle(v)
                    v.sort(key=lambda i: cases[i][3] > 1)
                for k in range(3 * PER_LINE):
                    rank = sorted((v for v in bylaw.values() if len(v) > k), key=lambda v: cases[v[k]][3])
                    order += [v[k] for v in rank]
                meta[key] = dict(key=key, what=what, text=text, n=len(order), laws=sorted("%s.%s" % k for k in bylaw))
                if not order:
                    meta[key]["result"] = "uncovered"
                    with open(rp, "a") as f:
                        f.write(json.dumps(meta[key]) + "\n")
                    continue
                work = [cases[i][:3] for i in order]
                yield key, (lambda key=key, fn=fn, src=src, work=work: run_mutant(key, fn, src, work))

    n = 0
    t0 = time.time()
    count = {}
    for key, status, t in forked(jobs(), int(os.environ.get("JOBS", "8")), BUDGET + 45):
        code = os.waitstatus_to_exitcode(status)
        r = "survived" if code == 0 else "slow" if code == 2 else "killed"
        count[r] = count.get(r, 0) + 1
        n += 1
        d = dict(meta[key], result=r, t=round(t, 1))
        with open(rp, "a") as f:
            f.write(json.dumps(d) + "\n")
        if n % 200 == 0:
            print(n, count, round(time.time() - t0), "s", flush=True)
    print(n, count, round(time.time() - t0), "s", flush=True)


def check(key, which):
    """The full quick checks against one mutant."""
    import shutil
    import subprocess
    import tempfile

    fn = key.split(":")[0]
    src = [m for m in mutants(fn) if m[0] == key][0]
    work = tempfile.mkdtemp(prefix="mutant-")
    try:
        shutil.copytree(boot.REPO, os.path.join(work, "repo"), symlinks=True)
        v = os.path.join(work, "verif")
        shutil.copytree(HERE, v, ignore=shutil.ignore_patterns("seeded", "replays", ".git", "evidence"))
        os.mkdir(os.path.join(v, "evidence"))
        with open(os.path.join(work, "repo", "src", "diffpy", "srmise", fn), "w") as f:
            f.write(src[4])
        for p in which:
            r = subprocess.run(["python3", "check.py", p], cwd=v, env=dict(os.environ, VERIF_REPO=os.path.join(work, "repo")), capture_output=True, text=True)
            bad = [x for x in r.stdout.split("\n") if x.startswith("law ")]
            print(key, src[2], "|", p, {0: "SURVIVED", 1: "CAUGHT"}.get(r.returncode, r.returncode), (bad or [""])[0][:200], flush=True)
            if r.returncode == 1:
                break
    finally:
        shutil.rmtree(work, ignore_errors=True)


def show(out):
    for line in open(os.path.join(out, "results.jsonl")):
        d = json.loads(line)
        if d["result"] != "killed":
            print("%-9s %-34s %-60s | %s [%d]" % (d["result"], d["key"], d["what"], d["text"][:90], d["n"]))


if __name__ == "__main__":
    cmd, out = sys.argv[1], os.path.abspath(sys.argv[2])
    if cmd == "collect":
        collect(out, sys.argv[3:])
    elif cmd == "run":
        run(out, sys.argv[3:])
    elif cmd == "check":
        check(sys.argv[2], sys.argv[3:])
    else:
        show(out)
