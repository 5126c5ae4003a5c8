#!/usr/bin/env python3
"""Regenerates harness/h/registry.go: name -> function, for native replays."""
import re, glob, os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "h")
names = []
for f in sorted(glob.glob(d + "/*.go")):
    if f.endswith("registry.go"):
        continue
    names += re.findall(r"^func ([A-Z][A-Z0-9]*_\w+)\(\) \{", open(f).read(), re.M)
with open(d + "/registry.go", "w") as o:
    o.write("package h\n\n// All maps harness names to functions (generated by tools/genreg.py).\nvar All = map[string]func(){\n")
    for n in sorted(names):
        o.write('\t"%s": %s,\n' % (n, n))
    o.write("}\n")
