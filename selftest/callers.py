import sys, os, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import facts
P = facts.Prog(sys.argv[1])
r, wh = sys.argv[2:4]
by = {}
for b in P.bodies:
    b = P.body(b) if isinstance(b, str) else b
    by.setdefault(b.file, []).append(b)
key = {}
for f, bs in by.items():
    fn = os.path.join(r, f)
    if not os.path.exists(fn):
        continue
    o = subprocess.run([wh, "where", fn] + [str(b.line) for b in bs], capture_output=True, text=True).stdout.split("\n")
    for b, k in zip(bs, o):
        if k:
            key[b.h] = f + "|" + k
up = {}
for bs in by.values():
    for b in bs:
        for c in P.callees(b):
            if b.h in key and c.h in key and key[b.h] != key[c.h]:
                up.setdefault(key[c.h], set()).add(key[b.h])
for k, v in up.items():
    print(k + "\t" + "\t".join(sorted(v)))
