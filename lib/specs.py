"""Runs the decision-table specifications of a property: lib/rules/<prop>.spec holds, per function, the effects and values
it must have; SPECS in the rule module says which functions and which vocabulary of named operations they are written in."""
import collections, os, re
from judge import judge, behaviour, dump, TooMany
from facts import strip_generics
from base import base, ident, cand, where

HERE = os.path.dirname(os.path.abspath(__file__))


def load(prop):
    p = os.path.join(HERE, "rules", prop.lower() + ".spec")
    out, cur = {}, None
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.rstrip("\n")
            if ln.startswith("## "):
                cur = ln[3:].strip()
                out[cur] = []
            elif ln.startswith("#"):
                continue
            elif cur is not None:
                out[cur].append(ln)
    return {k: "\n".join(v) for k, v in out.items()}


def find(P, s):
    if s.get("part"):
        part = base(P).raw["part"]
        return [b for b in P.bodies if cand(b) and s["part"] in part.get(keyof(s, b, P), ())]
    if s.get("auto"):
        B = base(P)
        P._auto = getattr(P, "_auto", None) or [b for b in P.bodies if cand(b)]
        out = []
        for b in P._auto:
            i = ident(b)
            if re.search(s["auto"], b.file + " " + i) and not (s.get("no") and re.search(s["no"], b.file + " " + i)) and (b.vis != "priv" or i in B.ops):
                out.append(b)
        return out
    f = s["fn"]
    if callable(f):
        return f(P)
    bs = [b for b in P.fns(f) if not b.derived and b.kind != "closure"]
    if s.get("where"):
        bs = [b for b in bs if re.search(s["where"], b.p)]
    return bs


def args(s, P=None):
    k = {x: s[x] for x in ("opaque", "macros", "acts", "ignore", "strict", "depth", "descend", "roles") if x in s}
    if isinstance(k.get("acts"), str):
        from common import callee_is
        k["acts"] = callee_is(k["acts"])
    if s.get("auto") or s.get("part"):
        from cases import Auto
        k["acts"] = Auto(k.get("acts"))
        k["opaque"] = base(P).op
    return k


def dups(P):
    if not hasattr(P, "_dups"):
        n = collections.Counter(ident(b) for b in P.bodies if cand(b))
        P._dups = {i for i, c in n.items() if c > 1} | set(base(P).raw.get("dups", ()))
    return P._dups


def keyof(s, b, P=None):
    if s.get("auto") or s.get("part"):
        return ident(b) + (where(b) if P and ident(b) in dups(P) else "")
    k = s["key"]
    return k(b) if callable(k) else k


def run(P, R, prop, specs, rule="behaviour", text="each function has exactly the effects and values its specification lists, under exactly the listed conditions"):
    R.rule(rule, text)
    base(P)
    sp = load(prop)
    used = set()
    for s in specs:
        r = s.get("rule", rule)
        if r not in R.rules:
            R.rule(r, s.get("text", text))
        bs = find(P, s)
        if not bs:
            gone(R, r, s, s.get("part") or f"{s['fn'] if isinstance(s['fn'], str) else s['key']}")
        for b in bs:
            k = keyof(s, b, P)
            if k not in sp:
                R.undecided(r, k, f"`{strip_generics(b.p)}` is new and has no specification", b.loc())
                continue
            used.add(k)
            R.functions = getattr(R, "functions", 0) + 1
            judge(P, R, r, k, b, sp[k], only=s.get("only"), conds=s.get("conds", True), drop=s.get("drop"), ordered=s.get("ordered", ()), **args(s, P))
    for k in sp:
        if k in used:
            continue
        m = re.match(r"(<.* as .*>)::\w+(?: @.*)?$", k)
        if m:       # a trait method: judged as wrong only if the rest of the implementation is still there
            gone(R, rule, {"trait": any(ident(b).startswith(m.group(1) + "::") for b in P.bodies if b.trait and cand(b))}, k)
        else:
            t = [s for s in specs if s.get("trait") and (s["trait"] is True or re.search(s["trait"], k)) and not s.get("part")]
            t = t if all(isinstance(x["trait"], str) for x in t) else []
            gone(R, t[0].get("rule", rule) if t else rule, t[0] if t else {}, k)


def gone(R, r, s, k):
    """a trait method whose implementation vanished falls back to the trait's default: wrong; any other function: moved, not judged"""
    if s.get("trait"):
        R.ob(r, f"{k}|exists", False, "the trait method this rule judges is no longer implemented, so the trait's default applies", "")
    else:
        R.undecided(r, k, "the function this specification describes is gone", "")


def write(P, prop, specs):
    """development aid: print the current tables in specification format"""
    out = []
    for s in specs:
        for b in find(P, s):
            try:
                d = behaviour(P, b, **args(s, P))
            except TooMany:
                out.append(f"# too many paths: {keyof(s, b, P)}")
                continue
            if s.get("only"):
                d = {k: v for k, v in d.items() if re.search(s["only"], k)}
            out.append(f"## {keyof(s, b, P)}\n{dump(d)}")
    return "\n".join(out) + "\n"
