#!/usr/bin/env python3
"""Regenerates the tables of DESIGN.md between the markers."""
import importlib
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))


def families(p):
    s = importlib.import_module("vf.props." + p.lower()).suite()
    out = []
    for f in s.families:
        n = len(f.enum("quick")) if f.enum else f.quick
        out.append(f"{f.name} ({'all ' if f.enum else ''}{n})")
    return ", ".join(out), s.rule


def seeds():
    rows = []
    d = os.path.join(ROOT, "seeded")
    res = {}
    path = os.path.join(ROOT, "tools", "seed-results.json")
    if os.path.exists(path):
        res = json.load(open(path))
    for x in sorted(os.listdir(d)):
        m = json.load(open(f"{d}/{x}/meta.json"))
        r = res.get(x, {})
        caught = ", ".join(k for k, v in sorted(r.items()) if v)
        rows.append(f"| {x} | {m['property']} | {m['what_it_breaks']} "
                    f"| {caught or 'not caught'} |")
    return "\n".join(rows)


def main():
    path = os.path.join(ROOT, "DESIGN.md")
    s = open(path).read()

    def put(name, text):
        nonlocal s
        a, b = f"<!-- {name} -->", f"<!-- /{name} -->"
        i, j = s.index(a) + len(a), s.index(b)
        s = s[:i] + "\n" + text + "\n" + s[j:]
    put("seeds", "| change | property | what it breaks | caught by |\n"
        "|---|---|---|---|\n" + seeds())
    for p in re.findall(r"<!-- (P\d\d) -->", s):
        fam, rule = families(p)
        put(p, f"*Families (cases in the quick tier):* {fam}.\n"
            f"*Explored:* {rule}")
    open(path, "w").write(s)


main()
