#!/usr/bin/env python3
"""Mutation sweep (development only): sweep.py MUTS.jsonl OUT.jsonl [count] [seed] [workers] [maxprops]
Each mutant of /repo is decided by the quick checks of the properties whose evidence shows
that they execute the mutated function, until one reports a violation."""
import json, os, random, re, shutil, subprocess, sys, glob, threading, queue
muts, out = sys.argv[1:3]
count, seed, workers, maxprops = (int(x) for x in (sys.argv[3:] + ["500", "1", "4", "5"][len(sys.argv) - 3:]))
share = {}
for f in glob.glob("/verif/evidence/*.json"):
    e = json.load(open(f))
    p = os.path.basename(f)[:-5]
    fe = e["coverage"]["functions_encoded"]
    tot = {k: int(v.split()[0]) for k, v in fe.items()}
    s = sum(tot.values()) or 1
    for k, v in tot.items():
        name = re.sub(r"[\[\$].*", "", k).split(".")[-1]
        d = share.setdefault(name, {})
        d[p] = d.get(p, 0) + v / s
anchors = {}
for l in open("/verif/properties.jsonl"):
    d = json.loads(l)
    for a in d["anchors"]["files"] if isinstance(d["anchors"], dict) else d["anchors"]:
        a = a if isinstance(a, str) else a.get("file", "")
        anchors.setdefault(a.split(":")[0], set()).add(d["id"])
L = [json.loads(l) for l in open(muts)]
skip = re.compile(r"debug|Debug|fmt\.Print(ln|f)\(\"")
L = [m for m in L if not skip.search(m["Desc"])]
random.Random(seed).shuffle(L)
done = set()
if os.path.exists(out):
    done = {(m["File"], m["Func"], m["Desc"], m["New"]) for m in map(json.loads, open(out))}
L = [m for m in L[:count] if (m["File"], m["Func"], m["Desc"], m["New"]) not in done]
q = queue.Queue()
for m in L: q.put(m)
lock = threading.Lock()
env = dict(os.environ, GOFLAGS="-mod=mod", GOSUMDB="off")
def work(k):
    repo = f"/tmp/sweep.{k}"
    shutil.rmtree(repo, ignore_errors=True)
    shutil.copytree("/repo", repo, symlinks=True)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = f"{repo}/{m['File']}"
        src = open(p, "rb").read()
        open(p, "wb").write(src[:m["From"]] + m["New"].encode() + src[m["To"]:])
        try:
            b = subprocess.run(["go", "build", "./..."], cwd=repo, env=env, capture_output=True)
            if b.returncode: m["result"] = "no-build"
            else:
                props = sorted(share.get(m["Func"], {}).items(),
                               key=lambda x: (x[0] not in anchors.get(m["File"], ()), -x[1]))
                m["props"] = [x[0] for x in props]
                m["result"] = "no-property" if not props else "survived"
                m["red"] = {}
                for pr, _ in props[:maxprops]:
                    try:
                        r = subprocess.run(["/verif/tools/try.sh", repo, pr], capture_output=True, text=True, timeout=400)
                        rc, txt = r.returncode, r.stdout
                    except subprocess.TimeoutExpired: rc, txt = -9, ""
                    if rc == 1 and "VIOLATION" in txt: m["result"], m["by"] = "killed", pr; break
                    if rc: m["red"][pr] = f"rc {rc}"
                    elif "REDUCED" in txt: m["red"][pr] = [l[:200] for l in txt.splitlines() if "REDUCED" in l or "not reproduced" in l]
        finally:
            open(p, "wb").write(src)
        with lock:
            open(out, "a").write(json.dumps(m) + "\n")
    shutil.rmtree(repo, ignore_errors=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
