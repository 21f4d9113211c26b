#!/usr/bin/env python3
"""Development aid (no check uses it): plant one small bug in every function (selftest/refac/src/bin/bugs.rs), one place per round K, and run
all checks; lists per function whether its change is reported, undecided or missed. usage: bugs.py [-j N] K..."""
import sys, os, re, subprocess, concurrent.futures as cf, queue, glob, argparse
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser(); ap.add_argument("-j", type=int, default=4); ap.add_argument("-p", default=""); ap.add_argument("--again", action="store_true"); ap.add_argument("k", nargs="+")
a = ap.parse_args()
TOOL = "/tmp/refac-target/release/bugs"; WH = "/tmp/refac-target/release/refac"
PROPS = a.p.split(",") if a.p else ["C" + os.path.basename(f)[1:3] for f in sorted(glob.glob(V + "/lib/rules/c??.py"))]
FILES = [f for f in subprocess.run("git ls-files pywr-core/src pywr-schema/src pywr-cli/src ipm-simd/src ipm-ocl/src ipm-common/src", cwd="/repo", shell=True, capture_output=True, text=True).stdout.split() if f.endswith(".rs") and "test" not in os.path.basename(f)]
slots = queue.Queue()
W = min(a.j, len(a.k))
for i in range(W):
    r, c = f"/tmp/mut/repo{i}", f"/tmp/mut/cache{i}"
    os.makedirs("/tmp/mut", exist_ok=True)
    if not os.path.isdir(c + "/target"):
        os.makedirs(c, exist_ok=True)
        subprocess.run(["cp", "-a", V + "/.cache/target", c + "/target"], check=True)
    subprocess.run(["cp", "-a", V + "/.cache/driver", c + "/driver"], check=True)
    slots.put((r, c))

def restore(r):
    subprocess.run(f"mkdir -p {r} && cd /repo && git ls-files -z | xargs -0 -n 500 cp --parents -a -t {r} 2>/dev/null", shell=True)

def where(r, f, l):
    return subprocess.run([WH, "where", os.path.join(r, f), l], capture_output=True, text=True).stdout.strip()

def one(K):
    r, c = slots.get()
    try:
        ex, exf = set(), f"/tmp/mut/ex.bugs.{K}"
        if os.path.exists(exf):
            ex = set(open(exf).read().split("\n"))
        if a.again:  # only those that were missed
            ex |= {l[10:].split("\t")[0] for l in open(f"/tmp/mut/bugs.{K}.res") if not l.startswith("missed")}
            exf += ".again"
        for it in range(40):
            restore(r)
            open(exf, "w").write("\n".join(sorted(ex)))
            muts = {}
            for f in FILES:
                q = subprocess.run([TOOL, K, os.path.join(r, f), exf, f], capture_output=True, text=True)
                if q.returncode:
                    return K, None, f"TOOL FAILED on {f}: {q.stderr[-300:]}"
                for l in q.stdout.splitlines():
                    k, _, w = l.partition("\t")
                    muts[k] = w
            env = dict(os.environ, VP_REPO=r, VP_CACHE=c, VP_EVID=f"/tmp/mut/ev.bugs{K}")
            os.makedirs(env["VP_EVID"], exist_ok=True)
            q = subprocess.run(["bash", V + "/bin/extract.sh"], env=env, capture_output=True, text=True)
            if q.returncode == 0:
                break
            log = open(c + "/extract.log").read()
            new = set()
            for m in re.finditer(r"^error.*?\n(?:.*\n)*?\s+--> ([^:\n]+):(\d+)", log, re.M):
                w = where(r, *m.groups())
                if w:
                    new.add(f"{m.group(1)}|{w}")
            if not new - ex:
                return K, None, "CANNOT FIX: " + log[-1500:]
            ex |= new
        else:
            return K, None, "TOO MANY ROUNDS"
        prog = None
        q = subprocess.run([sys.executable, V + "/bin/check.py"] + PROPS, env=env, capture_output=True, text=True)
        open(f"/tmp/mut/bugs.{K}.txt", "w").write(q.stdout + q.stderr)
        st = {}
        for l in q.stdout.splitlines():
            m = re.search(r"([\w/-]+\.rs):(\d+)", l)
            if m:
                k = f"{m.group(1)}|{where(r, *m.groups())}"
                s = "undecided" if l.lstrip().startswith("undecided") else "reported"
                if st.get(k, ("",))[0] != "reported":
                    st[k] = (s, l)
        # a change in a function that is specified inside its callers is reported there
        g = subprocess.run([sys.executable, V + "/selftest/callers.py", c + "/facts", r, WH], capture_output=True, text=True)
        up = dict(l.split("\t", 1) for l in g.stdout.splitlines())
        for k in muts:
            if k not in st:
                seen, todo = {k}, [(k, 0)]
                while todo:
                    x, d = todo.pop(0)
                    for y in filter(None, up.get(x, "").split("\t")):
                        if y not in seen and d < 4:
                            seen.add(y)
                            todo.append((y, d + 1))
                            if y in st and y not in muts:
                                st.setdefault(k, ("caller" if st[y][0] == "reported" else "undecided", "in " + y + " " + st[y][1]))
        return K, muts, st
    finally:
        restore(r)
        slots.put((r, c))

with cf.ThreadPoolExecutor(W) as x:
    for K, muts, st in x.map(one, a.k):
        if muts is None:
            print(K, st); continue
        n = {}
        with open(f"/tmp/mut/bugs.{K}.res" + (".again" if a.again else ""), "w") as o:
            for k, w in sorted(muts.items()):
                s, l = st.get(k, ("missed", ""))
                n[s] = n.get(s, 0) + 1
                o.write(f"{s:9} {k}\t{w}\t{l[:300]}\n")
            for k in sorted(set(st) - set(muts)):
                o.write(f"other     {k}\t\t{st[k][0]} {st[k][1][:200]}\n")
        print(K, len(muts), n); sys.stdout.flush()
