#!/usr/bin/env python3
"""check.py <PROPERTY> : decide one property on /repo's current source (static analysis, nothing is run)."""
import sys, os, json, time, hashlib, subprocess, importlib, fcntl
if os.environ.get("PYTHONHASHSEED") != "0":
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.setrecursionlimit(20000)
EVID = os.environ.get("VP_EVID", os.path.join(V, "evidence"))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.environ.get("VP_CACHE", os.path.join(V, ".cache"))


def source_key():
    h = hashlib.sha256()
    roots = sorted(x for x in os.listdir(REPO) if x.startswith(("pywr", "ipm-", "coin-or-sys", "Cargo", "rust-toolchain", ".cargo")))
    for r in roots:
        p = os.path.join(REPO, r)
        if os.path.isfile(p):
            fs = [p]
        else:
            fs = []
            for d, ds, fn in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "vendor", "node_modules"))
                fs += [os.path.join(d, f) for f in sorted(fn) if f.endswith((".rs", ".toml", ".lock", ".md", ".cl"))]
        for f in fs:
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read())
    for f in ("driver/main.rs", "bin/extract.sh"):
        h.update(open(os.path.join(V, f), "rb").read())
    return h.hexdigest()


def facts():
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        k = source_key()
        kf = os.path.join(CACHE, "facts", "KEY")
        if not (os.path.exists(kf) and open(kf).read() == k):
            r = subprocess.run(["bash", os.path.join(V, "bin/extract.sh")])
            if r.returncode:
                print("check: no facts, cannot decide")
                sys.exit(2)
            open(kf, "w").write(k)
        import facts as F
        return F.Prog(os.path.join(CACHE, "facts")), k


def known():
    out = {}
    f = os.path.join(V, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("finding: property="):
                body = l[len("finding: property="):]
                prop, rest = body.split(" ", 1)
                key, _, text = rest.partition(" :: ")
                out.setdefault(prop, {})[key.strip()] = text.strip()
    return out


def run(prop, P, k, t0, tier):
    from report import Report
    R = Report(prop, tier)
    mod = importlib.import_module("rules." + prop.lower())
    mod.run(P, R)
    kn = known().get(prop, {})
    bad = 0
    for key, msg, where in R.viol:
        if key in kn:
            print(f"KNOWN-FINDING: property={prop} {key} {where} {kn[key]}")
            continue
        bad += 1
        print(f"{where or '?'}: {key}: {msg}")
        rule = key.split(":", 1)[0]
        print(f"    rule {rule}: {R.rules.get(rule, '')}")
    for i, why, where in R.open:
        print(f"undecided: {where} {i}: {why}")
    n = sum(R.counts.values())
    os.makedirs(EVID, exist_ok=True)
    rep = os.path.join(EVID, f"{prop}.violations.txt")
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": getattr(mod, "LEVEL", "other"),
        "coverage": {
            "explanation": getattr(mod, "EXPLAIN", (mod.__doc__ or "").strip()),
            "facts": {"crates": P.crates, "functions_in_program_model": len(P.bodies), "source_key": k[:16]},
            "obligations": n,
            "discharged": n - len(R.viol),
            "known_findings": len(R.viol) - bad,
            "undecided": [f"{w} {i}: {y}" for i, y, w in R.open],
            "rules": [{"id": r, "rule": R.rules[r], "obligations": R.counts[r], "instances": sorted(set(R.samples[r]))[:80]} for r in R.rules],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "rustc's name resolution, type checking and MIR construction (nightly, all solver features on) describe the program that stable rustc builds",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": bad,
    }
    json.dump(ev, open(os.path.join(EVID, f"{prop}.json"), "w"), indent=1)
    if bad:
        with open(rep, "w") as f:
            for key, msg, where in R.viol:
                if key not in kn:
                    f.write(f"{where}: {key}: {msg}\n")
        print(f"VIOLATION property={prop} replay={rep}")
        return 1
    if os.path.exists(rep):
        os.remove(rep)
    print(f"{prop}: holds ({n} obligations, {len(R.viol)} known findings, {time.time()-t0:.1f}s)")
    return 0


def main():
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    props = [a for a in sys.argv[1:] if not a.startswith("--")]
    t0 = time.time()
    P, k = facts()
    rc = 0
    for p in props:
        try:
            rc |= run(p, P, k, t0 if len(props) == 1 else time.time(), tier)
        except Exception:
            import traceback
            traceback.print_exc()
            rc = 2
    sys.exit(rc)


main()
