#!/usr/bin/env python3
"""Runs checks against the planted bugs, in scratch copies of /repo and /verif (under /tmp, removed
afterwards).

usage: matrix.py [-j WORKERS] [-a] [-t TIER] [-o OUT.json] [ID...]

-a runs every check against each bug instead of the one of its property only.
"""
import argparse, json, os, queue, re, shutil, subprocess, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=3); ap.add_argument("-a", action="store_true")
ap.add_argument("-t", default="quick"); ap.add_argument("-o", default="/tmp/matrix.json")
ap.add_argument("-p", action="append", default=[], help="patch files to run instead (behaviour preserving edits)")
ap.add_argument("ids", nargs="*")
a = ap.parse_args()
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
jobs = queue.Queue()
if a.p:
    for f in a.p: jobs.put((os.path.basename(f), f, props if a.a else a.ids))
else:
    for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
        if not a.ids or d in a.ids or m["property"] in a.ids:
            jobs.put((d, os.path.join(ROOT, "seeded", d, "patch.diff"), props if a.a else [m["property"]]))
out, lock = {}, threading.Lock()

def work(n):
    base = f"/tmp/matrix-{os.getpid()}-{n}"
    repo, ver = base + "/repo", base + "/verif"
    os.makedirs(base)
    try:
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns("target"))
        shutil.copytree(ROOT, ver, symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "target"))
        for dp, dn, fn in os.walk(ver):
            for f in fn:
                p = os.path.join(dp, f)
                try: t = open(p).read()
                except UnicodeDecodeError: continue
                u = re.sub(r"(?<![\w.])/repo\b", repo, t)
                if t != u: open(p, "w").write(u)
        while True:
            try: sid, patch, ps = jobs.get_nowait()
            except queue.Empty: return
            r = subprocess.run(["git", "apply", patch], cwd=repo)
            res = {}
            if r.returncode: res["apply"] = "failed"
            else:
                for p in ps:
                    t0 = time.time()
                    e = dict(os.environ, VERIF_TIER=a.t, VERIF_SEED="1")
                    try:
                        r = subprocess.run(["bash", ver + "/check.sh", p], cwd=ver, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=3600)
                        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                        res[p] = (r.returncode, bool(v) and f"property={p} " in v[0] + " ", round(time.time() - t0), v[:1] or r.stdout[-800:])
                    except subprocess.TimeoutExpired:
                        res[p] = (-1, False, 3600, "timeout")
            subprocess.run("git checkout -q -- . && git clean -fdq src", shell=True, cwd=repo)
            with lock:
                out[sid] = res
                json.dump(out, open(a.o, "w"), indent=1)
                for p, x in res.items():
                    if x == "failed": print(sid, "does not apply", flush=True)
                    elif a.p or not a.a: print(sid, p, "exit", x[0], "caught" if x[0] == 1 and x[1] else "MISSED" if x[0] == 0 else "ODD", x[2], "s", "" if x[0] == 0 else str(x[3])[:300], flush=True)
                if a.a and not a.p: print(sid, "caught by", *[p for p, x in res.items() if x[0] == 1], "| odd:", *[p for p, x in res.items() if x[0] not in (0, 1)], flush=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)

ts = [threading.Thread(target=work, args=(i,)) for i in range(a.j)]
[t.start() for t in ts]; [t.join() for t in ts]
