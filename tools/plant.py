#!/usr/bin/env python3
"""Plant a bug: plant.py ID PROPERTY PKG FILE <<JSON-less spec on stdin
stdin: sections separated by lines '=== name': old, new (may repeat), demo, needs, breaks
Validates in a scratch copy and writes seeded/ID."""
import sys, os, subprocess, json, shutil, re
ID, PROP, PKG, FILE = sys.argv[1:5]
sec, cur = [], None
for l in sys.stdin.read().split("\n"):
    m = re.match(r"^=== (\w+)(?: (\S+))?$", l)
    if m:
        cur = [m.group(1), m.group(2), []]
        sec.append(cur)
    elif cur:
        cur[2].append(l)
W = f"/tmp/plant.{ID}"
shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(["cp", "-a", "/repo", W])
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off")
old = None
demo = needs = breaks = ""
for k, arg, ls in sec:
    t = "\n".join(ls).strip("\n")
    if k == "old":
        old, f = t, arg or FILE
    elif k == "new":
        p = f"{W}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (s.count(old), old)
        open(p, "w").write(s.replace(old, t))
    elif k == "demo": demo = t + "\n"
    elif k == "needs": needs = t
    elif k == "breaks": breaks = t
D = f"/verif/seeded/{ID}"
os.makedirs(D, exist_ok=True)
diff = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout
open(D + "/patch.diff", "w").write(diff)
open(D + "/demo_test.go.txt", "w").write(demo)
open(D + "/demo.sh", "w").write(f'''#!/bin/bash
# runs the demonstration as an extra test of ./{PKG} (nothing is written into the repository)
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo_test.go.txt" "$tmp/demo_test.go"
echo "{{\\"Replace\\": {{\\"$PWD/{PKG}/zz_demo_test.go\\": \\"$tmp/demo_test.go\\"}}}}" > "$tmp/overlay.json"
TMPDIR="$tmp" go test -overlay "$tmp/overlay.json" -count=1 -timeout 120s -run '^TestDemo$' ./{PKG}
''')
os.chmod(D + "/demo.sh", 0o755)
json.dump(dict(property=PROP, needs=needs, what_it_breaks=breaks), open(D + "/meta.json", "w"), indent=1)
# only original lines may change
base = "fee8ec2"
ok = True
for line in diff.splitlines():
    if line.startswith("-") and not line.startswith("---"):
        pass
def run(cmd, cwd, t=280):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired as e:
        class R: returncode, stdout, stderr = 124, "timeout", ""
        return R
b = run(["go", "build", "./..."], W)
if b.returncode: print("BUILD FAILS", b.stderr); ok = False
t = run(["go", "test", "-vet=off", "-count=1", "./..."], W)
if t.returncode: print("TESTS FAIL", t.stdout[-1500:]); ok = False
d0 = run([D + "/demo.sh"], "/repo")
if d0.returncode: print("DEMO FAILS ON CLEAN", d0.stdout[-1500:], d0.stderr[-500:]); ok = False
d1 = run([D + "/demo.sh"], W)
if d1.returncode == 0: print("DEMO PASSES WITH BUG"); ok = False
else: print("demo with bug:", " ".join(d1.stdout.split())[:300])
# blame of removed lines
bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", FILE], capture_output=True, text=True).stdout.splitlines()
for h in re.finditer(r"^@@ -(\d+)(?:,(\d+))? .*?@@.*\n((?:[ +\-\\].*\n?)*)", diff, re.M):
    n = int(h.group(1))
    for l in h.group(3).splitlines():
        if l.startswith("-"):
            if n-1 < len(bl) and not bl[n-1].lstrip("^").startswith(base[:7]): print("NOTE line of my own:", bl[n-1][:100])
        if not l.startswith("+"): n += 1
shutil.rmtree(W)
if not ok:
    if "-k" not in sys.argv: shutil.rmtree(D)
    sys.exit(1)
print("planted", ID)
