#!/usr/bin/env python3
"""Development aid (no check uses it): apply one mechanical, behaviour-preserving rewrite (selftest/refac) at every site of the
workspace where it compiles, and run all checks on the result; every reported line is a false alarm.
usage: refac.py [-j N] T..."""
import sys, os, re, subprocess, concurrent.futures as cf, queue, glob, argparse, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser(); ap.add_argument("-j", type=int, default=4); ap.add_argument("-p", default=""); ap.add_argument("--keep", action="store_true"); ap.add_argument("t", nargs="+")
a = ap.parse_args()
TOOL = "/tmp/refac-target/release/refac"
if not os.path.exists(TOOL):
    subprocess.run(["cargo", "build", "--offline", "--release"], cwd=V + "/selftest/refac", env=dict(os.environ, CARGO_TARGET_DIR="/tmp/refac-target"), check=True)
PROPS = a.p.split(",") if a.p else ["C" + os.path.basename(f)[1:3] for f in sorted(glob.glob(V + "/lib/rules/c??.py"))]
FILES = [f for f in subprocess.run("git ls-files pywr-core/src pywr-schema/src pywr-cli/src ipm-simd/src ipm-ocl/src ipm-common/src", cwd="/repo", shell=True, capture_output=True, text=True).stdout.split() if f.endswith(".rs") and "test" not in os.path.basename(f)]
slots = queue.Queue()
W = min(a.j, len(a.t))
for i in range(W):
    r, c = f"/tmp/mut/repo{i}", f"/tmp/mut/cache{i}"
    os.makedirs("/tmp/mut", exist_ok=True)
    if not os.path.isdir(c + "/target"):
        os.makedirs(c, exist_ok=True)
        subprocess.run(["cp", "-a", V + "/.cache/target", c + "/target"], check=True)
    subprocess.run(["cp", "-a", V + "/.cache/driver", c + "/driver"], check=True)
    slots.put((r, c))

def restore(r):
    subprocess.run(f"mkdir -p {r} && cd /repo && git ls-files -z | xargs -0 -n 500 cp --parents -a -t {r} 2>/dev/null", shell=True)

def one(T):
    r, c = slots.get()
    try:
        ex = set()
        exf = f"/tmp/mut/ex.{T}"
        if os.path.exists(exf):
            ex = set(open(exf).read().split("\n"))
        log = ""
        for it in range(25):
            restore(r)
            open(exf, "w").write("\n".join(sorted(ex)))
            n = 0
            for f in FILES:
                q = subprocess.run([TOOL, T, os.path.join(r, f), exf, f], capture_output=True, text=True)
                if q.returncode:
                    return T, 0, len(ex), f"TOOL FAILED on {f}: {q.stderr[-300:]}"
                n += int(q.stdout.strip() or 0)
            env = dict(os.environ, VP_REPO=r, VP_CACHE=c, VP_EVID=f"/tmp/mut/ev.{T}")
            os.makedirs(env["VP_EVID"], exist_ok=True)
            q = subprocess.run(["bash", V + "/bin/extract.sh"], env=env, capture_output=True, text=True)
            if q.returncode == 0:
                break
            log = open(c + "/extract.log").read()
            new = set()
            for m in re.finditer(r"^error.*?\n(?:.*\n)*?\s+--> ([^:\n]+):(\d+)", log, re.M):
                f, l = m.groups()
                w = subprocess.run([TOOL, "where", os.path.join(r, f), l], capture_output=True, text=True).stdout.strip()
                if w:
                    new.add(f"{f}|{w}")
            if not new - ex:
                return T, n, len(ex), "CANNOT FIX: " + log[-1500:]
            ex |= new
        else:
            return T, n, len(ex), "TOO MANY ROUNDS"
        q = subprocess.run([sys.executable, V + "/bin/check.py"] + PROPS, env=env, capture_output=True, text=True)
        out = q.stdout + q.stderr
        return T, n, len(ex), out
    finally:
        if not a.keep:
            restore(r)
        slots.put((r, c))
with cf.ThreadPoolExecutor(W) as x:
    for T, n, e, out in x.map(one, a.t):
        v = re.findall(r"VIOLATION property=(\w+)", out)
        ls = [l for l in out.splitlines() if ".rs:" in l]
        fns = sorted({re.sub(r"\|.*", "", l.split("behaviour:")[-1])[:120] for l in ls})
        print(f"== {T}: {n} sites, {e} functions excluded; {len(v)} checks alarm, {len(ls)} lines, {len(fns)} functions")
        open(f"/tmp/mut/out.{T}", "w").write(out)
        for f in fns:
            print("   ", f)
        if not v and "holds" not in out or "Traceback" in out:
            print(out[-2500:])
        sys.stdout.flush()
