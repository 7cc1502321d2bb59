#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md: laws of each check, and planted bugs."""

import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
if os.path.realpath(sys.executable) != os.path.realpath("/opt/venv/bin/python") or "venv" not in sys.prefix:
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)
from harness import boot  # noqa: E402

boot.setup()
boot.quiet()


def laws():
    out = []
    for fn in sorted(os.listdir(os.path.join(HERE, "props"))):
        m = re.match(r"(C\d\d)\.py$", fn)
        if not m:
            continue
        mod = importlib.import_module("props." + m.group(1))
        out.append("| check | law | what it decides | quick cases | non-trivial |" if not out else None)
        if len(out) == 1:
            out.append("|---|---|---|---|---|")
        for law in mod.LAWS.laws:
            doc = " ".join((law.fn.__doc__ or "").split())
            rule = law.rule.replace("non-trivial: ", "")
            out.append("| %s | `%s` | %s | %d | %s |" % (m.group(1), law.name, doc, 3 * law.quick, rule.replace("|", "\\|")))
    return "\n".join(x for x in out if x)


def assumptions():
    out = []
    for fn in sorted(os.listdir(os.path.join(HERE, "props"))):
        m = re.match(r"(C\d\d)\.py$", fn)
        if m:
            mod = importlib.import_module("props." + m.group(1))
            for a in mod.LAWS.assumptions:
                out.append("* %s: %s" % (m.group(1), a))
    return "\n".join(out)


def bugs():
    out = ["| planted bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
    res = json.load(open(os.path.join(HERE, "tools", "caught.json")))
    for b in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", b, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (b, m["what_it_breaks"], m["needs"], res.get(b, "?")))
    return "\n".join(out)


p = os.path.join(HERE, "DESIGN.md")
t = open(p).read()
for name, fn in (("laws", laws), ("assumptions", assumptions), ("bugs", bugs)):
    a, b = "<!-- %s -->\n" % name, "\n<!-- end %s -->" % name
    i, j = t.index(a) + len(a), t.index(b)
    t = t[:i] + fn() + t[j:]
open(p, "w").write(t)
