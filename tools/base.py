#!/usr/bin/env python3
"""development aid: writes lib/base.json (vocabulary, signatures, field names) from the current facts"""
import sys, os, json, collections, re
if os.environ.get("PYTHONHASHSEED") != "0":
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
sys.path.append(V + "/tools")
sys.setrecursionlimit(20000)
from facts import Prog
from order import loops
from judge import behaviour, dump, TooMany
from cases import Auto
import base as B
P = Prog(os.environ.get("VP_CACHE", V + "/.cache") + "/facts")
ALL = [b for b in P.bodies if B.cand(b)]
n = collections.Counter()
for b in P.bodies:
    for _, f, *_ in b.calls():
        for t in P.targets(f):
            n[t.h] += 1
MAN = set(open(V + "/lib/ops.txt").read().split("\n")) if os.path.exists(V + "/lib/ops.txt") else set()
NOT = {x[1:] for x in MAN if x.startswith("-")}


def tab(b, ops):
    try:
        return dump(behaviour(P, b, (lambda t: B.cand(t) and t.h != b.h and B.ident(t) in ops), acts=Auto()))
    except TooMany:
        return "x" * 100000


big = {B.ident(b) for b in ALL if len(b.blocks) > 12 or loops(P, b)}
non = {}
for b in ALL:
    t = tab(b, big)
    ls = [l for l in t.split("\n") if l]
    if len(ls) <= 3 and len(t) < 200 and not any(l[:1] == " " for l in ls) and not b.trait:
        continue      # accessors, constructors and plain setters are expanded
    if len(ls) == 4 and [ls[0], ls[2]] == ["return false", "return true"] and not any("; " in l for l in ls) and len(t) < 400 \
            and re.match(r"\s*!?(?:Lt\(len\(|(?!Lt|Eq|Le)\w+\()|.* is (Some|None)$", ls[1]):
        continue      # a plain test
    if any(l[:1] == " " or not (l.startswith("return") or " := " in l) for l in t.split("\n") if l) or len(t) > 400:
        non[B.ident(b)] = b
ops = {i for i, b in non.items() if b.vis != "priv" or n[b.h] > 1 or b.trait}
while True:
    add = set()
    for i, b in non.items():
        if i not in ops and len(tab(b, ops)) > 500:
            add.add(i)
    if not add:
        break
    ops |= add
ops = (ops | {x for x in MAN if x and x[0] not in "-#"}) - NOT
sigs = {B.ident(b): B.sig(b) for b in ALL if B.ident(b) in ops}
adts = {B.plain(p): B.fieldsof(a) for p, a in P.adts.items() if a.crate != "x" and p.startswith(("pywr", "ipm_", "coin"))}
dups = sorted(i for i, c in collections.Counter(B.ident(b) for b in ALL).items() if c > 1)
from parts import PARTS, EXTRA
part = {}
for b in ALL:
    if b.vis != "priv" or B.ident(b) in ops:
        k = B.ident(b) + (B.where(b) if B.ident(b) in dups else "")
        x = next((p for p, r in PARTS if re.search(r, b.file + " " + B.ident(b))), None)
        assert x is not None, k
        xs = sorted({x} | {p for p, r in EXTRA if re.search(r, b.file + " " + B.ident(b))} - {"", "C01"})
        xs = [x for x in xs if x not in ("", "C01")]
        if xs:
            part[k] = xs
json.dump({"part": part, "dups": dups, "ops": sorted(ops), "sigs": sigs, "adts": adts}, open(V + "/lib/base.json", "w"), indent=0, sort_keys=True)
print(len(ALL), "functions;", len(non), "nontrivial;", len(ops), "operations;", len(set(non) - ops), "private, expanded")
print("\n".join(sorted(set(non) - ops)))
