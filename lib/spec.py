"""Canonical forms for terms and guards, so that a rule can state what a construct must compute.

`cases(t)` distributes alternatives over operators and renders each one in a canonical arithmetic form (sums of products,
sorted operands, `-a/b` == `-(a/b)`), independent of local names, helpers, statement order and operand order."""
import re
from terms import walk, effects, alts, phi, show, subterms, Eval
from facts import strip_generics

ROLE = {"Network": "net", "State": "state", "Timestep": "ts", "ScenarioIndex": "scen", "Model": "model", "NetworkState": "netstate",
        "MultiNetworkModel": "model", "SolverTimings": "timings", "Lp": "lp", "NetworkSolverFeatures": "features"}


def named(body, roles=None):
    """parameter terms named by type, so that parameter order and names do not matter"""
    out, used = [], {}
    for i in range(body.nargs):
        t = body.lty(i + 1).peel()
        n = None
        if i == 0 and body.self_ty is not None and t.s == body.self_ty.peel().s and body.lname(1) == "self":
            n = "self"
        if n is None:
            n = (roles or {}).get(t.d.split("::")[-1]) or ROLE.get(t.d.split("::")[-1])
        if n is None:
            n = f"p{i}"
        if n in used:
            used[n] += 1
            n = f"{n}#{used[n]}"
        else:
            used[n] = 1
        out.append(("arg", n))
    return out


LIM = 256


def expand(t, memo=None):
    """alternatives of t with phis distributed outwards through arithmetic, casts, fields, tuples, enum payloads"""
    k = t[0]
    if k == "phi":
        out = []
        for x in t[1]:
            out += expand(x)
        return out[:LIM]
    if k == "op":
        rs = [()]
        for a in t[2]:
            ea = expand(a)
            rs = [r + (x,) for r in rs for x in ea][:LIM]
        return [("op", t[1], r) for r in rs]
    if k == "cast":
        return expand(t[1])
    if k == "call" and t[2] in ("max", "min") and len(t[3]) == 2:
        return [("call", t[1], t[2], (a, b)) for a in expand(t[3][0]) for b in expand(t[3][1])][:LIM]
    return [t]


def cnum(v):
    try:
        s = str(v).replace("_", "")
        s = re.sub(r"(f64|f32|[iu](8|16|32|64|128|size))$", "", s)
        return float(s)
    except ValueError:
        return None


def poly(t):
    """canonical sum of products: dict {((atom, power), ...): coefficient}"""
    k = t[0]
    if k == "cast" or k == "call" and len(t[3]) == 1 and t[2] in TRANS:
        return poly(t[1] if k == "cast" else t[3][0])
    if k == "c":
        n = cnum(t[1])
        if n is not None:
            return {(): n} if n else {}
        return {((str(t[1]), 1),): 1.0}
    if k == "op":
        o = t[1].replace("Unchecked", "").replace("WithOverflow", "")
        if o in ("Add", "Sub") and len(t[2]) == 2:
            r = dict(poly(t[2][0]))
            s = 1 if o == "Add" else -1
            for m, c in poly(t[2][1]).items():
                r[m] = r.get(m, 0) + s * c
            return {m: c for m, c in r.items() if c}
        if o == "Neg":
            return {m: -c for m, c in poly(t[2][0]).items()}
        if o == "Mul":
            a, b = poly(t[2][0]), poly(t[2][1])
            if len(a) * len(b) <= 64:
                r = {}
                for m, c in a.items():
                    for n, d in b.items():
                        q = mmul(m, n)
                        r[q] = r.get(q, 0) + c * d
                return {m: c for m, c in r.items() if c}
        if o == "Div":
            a, b = poly(t[2][0]), poly(t[2][1])
            if len(b) == 1:
                (n, d), = b.items()
                inv = tuple((x, -p) for x, p in n)
                return {mmul(m, inv): c / d for m, c in a.items()}
            if b:
                inv = (("(" + rpoly(b) + ")", -1),)
                return {mmul(m, inv): c for m, c in a.items()}
    return {((atom(t), 1),): 1.0}


def mmul(m, n):
    d = dict(m)
    for x, p in n:
        d[x] = d.get(x, 0) + p
    return tuple(sorted((x, p) for x, p in d.items() if p))


def fnum(c):
    if c == int(c) and abs(c) < 1e15:
        return str(int(c))
    return repr(float(f"{c:.12g}"))


def rpoly(p):
    if not p:
        return "0"
    ts = []
    for m, c in sorted(p.items(), key=lambda x: str(x[0])):
        up = "*".join(x if q == 1 else f"{x}^{q}" for x, q in m if q > 0)
        dn = "*".join(x if q == -1 else f"{x}^{-q}" for x, q in m if q < 0)
        s = up or ""
        if not s:
            s = fnum(abs(c))
        elif abs(c) != 1:
            s = fnum(abs(c)) + "*" + s
        if dn:
            s += "/" + (dn if "*" not in dn else f"({dn})")
        ts.append(("-" if c < 0 else "+") + s)
    r = " ".join(ts)
    return r[1:] if r.startswith("+") else r


_memo = {}


def canon(t):
    """canonical rendering of one term"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    r = _memo.get(t)
    if r is None:
        if t[0] == "op" and t[1].replace("Unchecked", "").replace("WithOverflow", "") in ("Add", "Sub", "Mul", "Div", "Neg"):
            p = poly(t)
            r = rpoly(p)
            if len(p) > 1:
                r = "(" + r + ")"
        else:
            r = atom(t)
        if len(r) > 20000:
            r = r[:20000]
        _memo[t] = r
    return r


TRANS = {"to_usize", "from_usize", "to_f64", "to_u64", "to_i32", "get", "deref", "as_any", "as_any_mut", "clone", "abs_sub_none"}
FLIP = {"Gt": "Lt", "Ge": "Le"}


def atom(t):
    k = t[0]
    c = canon
    if k == "arg":
        return str(t[1]) if isinstance(t[1], str) else f"arg{t[1]}"
    if k == "f":
        if t[1][0] == "call" and t[1][2] == "own_mut":      # a part of a structure the function builds itself
            v = t[1][3][0]
            if v[0] == "agg":
                v = v[:3] + (tuple(x for x in v[3] if x[0] in ("name", "meta")) or v[3],)
            return f"{c(v)}.{t[3].split('#')[-1]}"
        return f"{c(t[1])}.{t[3].split('#')[-1]}"
    if k == "c":
        n = cnum(t[1])
        return fnum(n) if n is not None and n == n and abs(n) != float("inf") else str(t[1])
    if k == "call":
        n, a = t[2], t[3]
        if len(a) == 1 and (n in TRANS or n == "own_mut"):
            return c(a[0])
        if n == "abs" and len(a) == 1:
            p = poly(a[0])
            if len(p) >= 1:
                x, y = rpoly(p), rpoly({m: -v for m, v in p.items()})
                return f"abs({min(x, y)})"
        if n in ("max", "min"):
            return f"{n}({', '.join(sorted(c(x) for x in flatcall(t, n)))})"
        return f"{n}({', '.join(c(x) for x in a)})"
    if k == "op":
        o, a = t[1], list(t[2])
        if o in FLIP:
            o, a = FLIP[o], a[::-1]
        if o in ("Lt", "Eq") and len(a) == 2 and a[0][0] not in ("agg", "none") and a[1][0] not in ("agg", "none"):
            pa, pb = poly(a[0]), poly(a[1])
            if len(pa) > 1 or len(pb) > 1:
                # compare the difference with zero: terms with a minus sign on the left
                d = dict(pb)
                for m, x in pa.items():
                    d[m] = d.get(m, 0) - x
                lo, hi = {m: -x for m, x in d.items() if x < 0}, {m: x for m, x in d.items() if x > 0}
                s = [rpoly(lo), rpoly(hi)]
                if o == "Eq":
                    s.sort()
                return f"{o}({', '.join(s)})"
        s = [c(x) for x in a]
        if o in ("Eq", "Ne", "BitAnd", "BitOr"):
            s.sort()
        return f"{o}({', '.join(s)})"
    if k == "phi":
        return "{" + " | ".join(sorted({c(x) for x in t[1]})) + "}"
    if k == "agg":
        if not t[3]:
            return f"{t[2]}"
        return f"{t[2]}{{" + ", ".join(f"{n}: {c(x)}" for n, x in sorted(t[3])) + "}"
    if k in ("tuple", "array"):
        return "(" + ", ".join(c(x) for x in t[1]) + ")"
    if k == "closure":
        return "|closure|"
    if k == "v":
        return f"{c(t[1])}~{t[2]}"
    if k == "index":
        return f"{c(t[1])}[{c(t[2])}]"
    if k == "cast":
        return c(t[1])
    if k == "fn":
        return "fn:" + strip_generics(t[1])
    if k == "vec":
        return "new()"
    if k == "list":
        from cases import lit, litof
        return "list(" + ", ".join(c(i[1]) + (" if " + " & ".join(sorted(lit(*litof(*x[1:])) for x in i[2:])) if i[2:] else "") for i in t[1:]) + ")"
    if k in ("elem", "idx", "discr", "err", "errof", "errv", "acc"):
        return f"{k}({', '.join(c(x) for x in t[1:])})"
    return k


def flatcall(t, n):
    if t[0] == "call" and t[2] == n:
        out = []
        for x in t[3]:
            out += flatcall(x, n)
        return out
    return [t]


def cases(t):
    return {canon(x) for x in expand(t)}


def gcanon(gs):
    """canonical set of guards 'subject in labels'"""
    out = set()
    for g in gs:
        kind, subj, lab, allv = g[0], g[1], set(g[2]), set(g[3])
        if lab >= allv:
            continue
        out.add(gone(subj, lab, allv))
    out.discard(None)
    return frozenset(out)


def gone(subj, lab, allv):
    t = subj
    if t[0] == "phi" and allv <= {"true", "false"} and all(x[0] == "c" for x in t[1]):
        pass
    while True:
        if t[0] == "op" and t[1] == "Not" and lab <= {"true", "false"}:
            t, lab = t[2][0], {"true" if x == "false" else "false" for x in lab}
            continue
        if t[0] == "op" and t[1] == "Ne" and lab <= {"true", "false"}:
            t, lab = ("op", "Eq", t[2]), {"true" if x == "false" else "false" for x in lab}
            continue
        if t[0] == "call" and t[2] in ("is_some", "is_none", "is_ok", "is_err") and len(t[3]) == 1 and lab <= {"true", "false"}:
            pos = {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}[t[2]]
            neg = {"Some": "None", "None": "Some", "Ok": "Err", "Err": "Ok"}[pos]
            t, lab = t[3][0], {pos if "true" in lab else neg}
            break
        if t[0] == "op" and t[1] == "Eq" and lab == {"true"}:
            u = [x for x in t[2] if x[0] == "agg" and not x[3]]
            if len(u) == 1:
                o = [x for x in t[2] if x is not u[0]][0]
                t, lab = o, {u[0][2]}
                break
        if t[0] == "op" and t[1] in ("Lt", "Gt", "Le", "Ge") and lab == {"false"}:
            t, lab = ("op", {"Lt": "Ge", "Gt": "Le", "Le": "Gt", "Ge": "Lt"}[t[1]], t[2]), {"true"}
        break
    if t[0] == "discr":
        t = t[1]
    s = canon(t)
    if lab == {"true"}:
        return s
    if lab == {"false"}:
        return "!" + s
    return f"{s} is {'|'.join(sorted(lab))}"


def has(g, pat):
    r = re.compile(pat)
    return any(r.search(x) for x in g)
