#!/usr/bin/env python3
"""Writes the table of planted changes in DESIGN.md, from the outputs of try.sh in /tmp/ck.ID.PROP.txt (development only)."""
import glob, json, os, re
d = open("/verif/DESIGN.md").read()
old = dict(re.findall(r"^\| (\S+) \| ([^|]*) \|", d, re.M))
rows = ["| change | caught by | manifests with |", "|---|---|---|"]
for s in sorted(glob.glob("/verif/seeded/*")):
    i = os.path.basename(s)
    m = json.load(open(s + "/meta.json"))
    f = f"/tmp/ck.{i}.{m['property']}.txt"
    by = old.get(i, "missed")
    if os.path.exists(f):
        hs = sorted(set(re.findall(r"^  (\w+): .*\[\w+\]$", open(f).read(), re.M)))
        by = ", ".join(hs) or "missed"
    rows.append(f"| {i} | {by} | {m['needs'].strip()} |".replace("\n", " "))
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
if "SEEDTABLE" in d:
    d = d.replace("SEEDTABLE", t)
else:
    d = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, d, flags=re.S)
open("/verif/DESIGN.md", "w").write(d)
print(sum("missed" in r for r in rows), "missed of", len(rows) - 2)
