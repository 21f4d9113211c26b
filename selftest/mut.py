#!/usr/bin/env python3
"""Development aid (no check uses it): apply small source edits to scratch copies of /repo and run the checks on them.
usage: mut.py FILE.py [-j N] [-k SUBSTR] [-p PROP,...]   where FILE.py defines M = [(id, props, file, old, new), ...]
props: the properties expected to report the edit; prefix '-' = an edit that must stay quiet for ALL listed properties."""
import sys, os, subprocess, shutil, argparse, runpy, concurrent.futures as cf, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("file"); ap.add_argument("-j", type=int, default=6); ap.add_argument("-k", default=""); ap.add_argument("-p", default="")
ap.add_argument("-v", action="store_true")
a = ap.parse_args()
M = [m for m in runpy.run_path(a.file)["M"] if a.k in m[0]]
W = min(a.j, max(1, len(M)))
slots = queue.Queue()
for i in range(W):
    r, c = f"/tmp/mut/repo{i}", f"/tmp/mut/cache{i}"
    os.makedirs("/tmp/mut", exist_ok=True)
    if not os.path.isdir(c + "/target"):
        os.makedirs(c, exist_ok=True)
        subprocess.run(["cp", "-a", V + "/.cache/target", c + "/target"], check=True)
    subprocess.run(["cp", "-a", V + "/.cache/driver", c + "/driver"], check=True)
    subprocess.run(f"mkdir -p {r} && cd /repo && git ls-files -z | xargs -0 -n 500 cp --parents -a -t {r} 2>/dev/null", shell=True)
    slots.put((r, c))
lock = threading.Lock()
res = {}
def one(m):
    mid, props, f, old, new = (tuple(m) + (None, None))[:5]
    quiet = props.startswith("-")
    pl = props.lstrip("-").split(",")
    if a.p:
        pl = a.p.split(",")
    r, c = slots.get()
    try:
        edits = [(f, old, new)] if isinstance(f, str) else f
        for (ff, o, n) in edits:
            src = open(os.path.join("/repo", ff)).read()
            p = os.path.join(r, ff)
            cur = open(p).read()
            if cur.count(o) < 1:
                return mid, "BADEDIT", f"{ff}: text not found"
            open(p, "w").write(cur.replace(o, n, 1))
        env = dict(os.environ, VP_REPO=r, VP_CACHE=c, VP_EVID="/tmp/mut")
        q = subprocess.run([sys.executable, V + "/bin/check.py"] + pl, env=env, capture_output=True, text=True)
        out = q.stdout + q.stderr
        caught = [p for p in pl if f"VIOLATION property={p} " in out]
        if q.returncode >= 2:
            return mid, "NOANSWER", out[-1500:]
        if quiet:
            return mid, ("QUIET" if not caught else "FALSE-ALARM " + ",".join(caught)), out
        return mid, ("CAUGHT " + ",".join(caught) if caught else "MISSED"), out
    finally:
        edits = [(f, old, new)] if isinstance(f, str) else f
        for (ff, o, n) in edits:
            shutil.copy2(os.path.join("/repo", ff), os.path.join(r, ff))
        slots.put((r, c))
with cf.ThreadPoolExecutor(W) as ex:
    for mid, st, out in ex.map(one, M):
        print(f"{st:28} {mid}")
        if a.v or st.startswith(("MISSED", "NOANSWER", "BADEDIT", "FALSE")):
            ls = [l for l in out.strip().splitlines() if ".rs:" in l] if st.startswith("FALSE") else out.strip().splitlines()[-8:]
            print("      " + "\n      ".join(l[:700] for l in ls[:8]))
        sys.stdout.flush()
