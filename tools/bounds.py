#!/usr/bin/env python3
"""Regenerates BOUNDS.md: what every harness explores, from the harness sources."""
import re, glob, os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
out = ["# Bounds of every harness", "",
       "Generated by tools/bounds.py from the `bound:` comment of each harness (the same text is in the evidence).",
       "Whatever lies outside a bound is not covered.", ""]
order = [re.match(r'.*?"id": "(\w+)"', l).group(1) for l in open(d + "/properties.jsonl")]
hs = {}
for f in sorted(glob.glob(d + "/harness/h/*.go")):
    src = open(f).read()
    for m in re.finditer(r"((?:^//.*\n)*)^func (([A-Z]\d\d)_\w+)\(\) \{", src, re.M):
        lines = [l[2:] for l in m.group(1).splitlines()]
        text, on = [], False
        for l in lines:
            if l.strip().startswith("bound:"):
                on, l = True, l.strip()[6:]
            elif re.match(r"^\s*[a-z]+:", l):
                on = False
            if on:
                text.append(l.strip())
        hs.setdefault(m.group(3), []).append((m.group(2), " ".join(text) or "(none stated)"))
for p in order:
    out.append("## " + p)
    out += ["* `%s`: %s" % x for x in hs.get(p, [])]
    out.append("")
open(d + "/BOUNDS.md", "w").write("\n".join(out))
