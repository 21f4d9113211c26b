"""Compare what a function does (its decision table) with what it must do."""
import re
from cases import table, gated, accepted, spell, TooMany
from spec import named


def parse(text):
    """lines 'EFFECT' followed by indented alternative condition lists 'a; b'"""
    out, cur = {}, None
    for ln in text.strip("\n").splitlines():
        if not ln.strip():
            continue
        if ln[0] not in " \t":
            cur = ln.strip()
            out[cur] = set()
        else:
            out[cur].add(frozenset(x.strip() for x in ln.strip().split("; ")))
    return {k: frozenset(v) or frozenset({frozenset()}) for k, v in out.items()}


def abbrev(macros, s):
    for m in macros:
        if len(m) == 3:
            s = re.sub(m[0], m[1], s)
        else:
            s = s.replace(m[0], m[1])
    return s


def behaviour(P, body, opaque=(), macros=(), acts=None, env=None, depth=7, ignore=None, strict=False, descend=None, roles=None):
    ops = set(opaque) if not callable(opaque) else ()
    op = opaque if callable(opaque) else (lambda t: t.name in ops or sfx(t) in ops)
    rs = table(P, body, env if env is not None else named(body, roles), depth=depth, opaque=op, acts=acts, limit=1500, budget=[150000], strict=strict, descend=descend)
    g = gated(rs, lambda s: abbrev(macros, s), spell(P, op, acts), SUCC)
    try:
        rs = table(P, body, env if env is not None else named(body, roles), depth=depth, opaque=op, acts=acts, limit=1500, budget=[150000], strict=True, descend=descend)
        a = accepted(rs, lambda s: abbrev(macros, s), spell(P, op, acts))
        if a is not None and len(a) <= 40:
            a = inbounds(a, "\n".join(list(g) + [y for c, w in g.values() for x in c for y in x]))
            if a is not None:
                g[ACC] = (a, body.loc())
    except TooMany:
        pass
    return {k: x for k, x in g.items() if not (ignore and re.search(ignore, k))}


def inbounds(a, text):
    """without tests that an index is within the collection that is then indexed with it"""
    out = set()
    for c in a:
        k = set()
        for y in c:
            ab = split2(y[3:-1]) if y.startswith("Lt(") else None
            m = re.match(r"^len\((.*)\)$", ab[1]) if ab else None
            if not (m and f"{m.group(1)}[{ab[0]}]" in text):
                k.add(y)
        if not k:
            return None
        out.add(frozenset(k))
    return frozenset(out)


SUCC, ACC = "[success]", "[accepts]"


def sfx(t):
    from facts import strip_generics
    p = strip_generics(t.p).split("::")
    return "::".join(p[-2:])


def dump(b):
    o = []
    for k, (c, w) in sorted(b.items()):
        o.append(k)
        if c != frozenset({frozenset()}):
            o += sorted("    " + "; ".join(sorted(x)) for x in c)
    return "\n".join(o)


def split2(x):
    d = 0
    for i, ch in enumerate(x):
        d += ch in "([{"
        d -= ch in ")]}"
        if ch == "," and d == 0:
            return x[:i].strip(), x[i + 1:].strip()
    return None


def literal(x):
    if " is " in x and not x.endswith(")"):
        a, _, b = x.rpartition(" is ")
        return a, frozenset(b.split("|"))
    return (x[1:], frozenset({"false"})) if x.startswith("!") else (x, frozenset({"true"}))


TRUTH = frozenset({frozenset()})


def equiv(c1, c2, s1=TRUTH, s2=TRUTH):
    """the two disjunctions of conditions hold in the same situations (in those the conditions s1 and s2 allow)"""
    if c1 == c2:
        return True
    if not c1 or not c2:
        return False
    A, B, S1, S2 = [[dict((a, b) for a, b in map(literal, x)) for x in c] for c in (c1, c2, s1, s2)]
    if s1 == s2:
        S2 = [{}]
    dom = {}
    for c in A + B + S1 + S2:
        for v, l in c.items():
            dom.setdefault(v, set()).update(l)
    for v, l in dom.items():
        l |= {"true", "false"} if l <= {"true", "false"} else {"~"} if not l & {"Some", "None", "Ok", "Err"} and not any(x.startswith("not ") for x in l) \
            else ({"Some", "None"} if l & {"Some", "None"} else {"Ok", "Err"} if l & {"Ok", "Err"} else {x[4:] for x in l if x.startswith("not ")} | {"not " + x for x in l if not x.startswith("not ")})
    rel = {}
    for v in dom:
        m = re.match(r"(Lt|Eq)\((.*)\)$", v)
        ab = split2(m.group(2)) if m else None
        if ab:
            rel[v] = (m.group(1),) + ab

    def bad(asg, v):
        """assigning v true contradicts an order atom that is already true"""
        if v not in rel or asg[v] != "true":
            return False
        k, a, b = rel[v]
        for w, l in asg.items():
            if w != v and l == "true" and w in rel:
                k2, a2, b2 = rel[w]
                if {a, b} == {a2, b2} and not (k == k2 == "Lt" and (a, b) == (a2, b2)):
                    return True
        return False
    n = [20000]

    def go(x, y, p, q, asg):
        n[0] -= 1
        if n[0] < 0:
            return None
        if not p or not q:
            return True
        tx, ty = any(not c for c in x), any(not c for c in y)
        if (tx or not x) and (ty or not y):
            if tx == ty:
                return True
            o = next((z for z in (p, q) if z and not any(not c for c in z)), None)
            if o is None:
                return False
            v = next(iter(o[0]))
        else:
            v = next(iter((x if not tx and x else y)[0]))
        for l in dom[v]:
            asg[v] = l
            if not bad(asg, v):
                r = go(*[[{k: s for k, s in c.items() if k != v} for c in z if v not in c or l in c[v]] for z in (x, y, p, q)], asg)
                if not r:
                    del asg[v]
                    return r
            del asg[v]
        return True
    return bool(go(A, B, S1, S2, {}))


def args(s):
    """the arguments in the text of a call 'f(a, b)'"""
    out, d, k = [], 0, 0
    i = s.index("(")
    for j in range(i + 1, len(s)):
        ch = s[j]
        if ch in "([{":
            d += 1
        elif ch in ")]}":
            if d == 0:
                out.append(s[i + 1 + k:j].strip())
                return out, j
            d -= 1
        elif ch == "," and d == 0:
            out.append(s[i + 1 + k:j].strip())
            k = j - i
    return None, len(s)


def choices(v, other):
    """[(literals, value)] of a value that is a min / max / clamp, spelled as a choice"""
    m = re.match(r"(min|max|clamp)\(", v)
    a, j = args(v) if m else (None, 0)
    if not a or j != len(v) - 1 or len(a) != (3 if m.group(1) == "clamp" else 2):
        return [((), v)]
    lt = lambda x, y: f"Lt({x}, {y})"
    if m.group(1) == "clamp":
        x, lo, hi = a
        alt = [((lt(x, lo),), lo), (("!" + lt(x, lo), lt(hi, x)), hi), (("!" + lt(x, lo), "!" + lt(hi, x)), x)]
    else:
        x, y = a if lt(*a) in other or lt(a[1], a[0]) not in other else a[::-1]
        lo, hi = (x, y) if m.group(1) == "min" else (y, x)
        alt = [((lt(x, y),), lo), (("!" + lt(x, y),), hi)]
    return [(c + c2, w) for c, v2 in alt for c2, w in choices(v2, other)]


def spelled(D, other):
    """effects {effect: conditions} with values that are a minimum or maximum spelled as a choice"""
    out = {}
    for e, cs in D.items():
        for sep in (" := ", "return "):
            if sep in e:
                h, _, v = e.partition(sep)
                for c, w in choices(v, other):
                    if sep == " := " and w == h:
                        continue
                    k = {frozenset(x | set(c)) for x in cs if not any(("!" + y if y[0] != "!" else y[1:]) in x for y in c)}
                    out[h + sep + w] = out.get(h + sep + w, frozenset()) | k
                break
        else:
            out[e] = out.get(e, frozenset()) | cs
    return out


def same_choice(b, exp, bad, extra, eq):
    """the differing effects that are the same on both sides once minima and maxima are spelled as choices, or clamps as minima"""
    hs = {head(e) for e in bad + extra}
    ok = set()
    for h in hs:
        A = {e: c for e, (c, w) in b.items() if head(e) == h}
        B = {e: c for e, c in exp.items() if head(e) == h}
        ta, tb = ["\n".join(list(X) + [y for c in X.values() for x in c for y in x]) for X in (A, B)]
        if not re.search(r"\b(min|max|clamp)\(", ta + tb):
            continue
        for X, t in ((A, tb), (B, ta)):
            for m in set(re.findall(r"\bclamp\(", t)):
                for k in re.finditer(r"\bclamp\(", t):
                    a, j = args(t[k.start():])
                    if not a or len(a) != 3:
                        continue
                    x, lo, hi = a
                    cl = t[k.start():k.start() + j + 1]
                    for f, g, o, i in (("min", "max", hi, lo), ("max", "min", lo, hi)):
                        for inner in (f"{g}({x}, {i})", f"{g}({i}, {x})"):
                            for w in (f"{f}({inner}, {o})", f"{f}({o}, {inner})"):
                                for e in [e for e in X if w in e]:
                                    X[e.replace(w, cl)] = X.pop(e)
        A2, B2 = spelled(A, tb), spelled(B, ta)
        if A2.keys() == B2.keys() and all(eq(A2[e], B2[e]) for e in A2):
            ok |= {e for e in bad + extra if head(e) == h}
    return ok


LONG = 250
FORMS = re.compile(r"\b(itself|from_elem|get_or_insert_with|or_insert_with|or_insert|or_default|entry|retain|drain|fold|scan|zip|chunks|windows|flat_map|flatten|"
                   r"partition|reduce|successors|concat|splice|split_off|chunk_by|group_by|scanl|from_fn|repeat_n|repeat|is_sorted|dedup|swap|replace|take_while|skip_while|map_while)\(")


PHI = re.compile(r"\{[^{}|]*(\{[^{}]*\}[^{}|]*)* \| ")
NESTED = re.compile(r"\blist\(|\||\bif\b")


def toks(s):
    return re.findall(r"[\w.]+|[^\w\s]", s)


def near(a, b, n=6):
    """do two long texts differ in a few tokens at one or two places only?"""
    import difflib
    x, y = toks(a), toks(b)
    if abs(len(x) - len(y)) > 2 * n:
        return False
    d = 0
    for op, i1, i2, j1, j2 in difflib.SequenceMatcher(None, x, y, False).get_opcodes():
        if op != "equal":
            d += max(i2 - i1, j2 - j1)
    return d <= n


def head(e):
    return e.split(" := ")[0] if " := " in e else e.split(" ")[0].split("(")[0]


def complicated(missing, extra, exp, b, fx, bad):
    """the first difference that is too intricate to be told apart from another way of writing the same thing: a long value or
    condition without a counterpart it differs from in a few tokens, or a way of building a collection the analysis does not follow"""
    if missing and extra:
        ph = [any(PHI.search(e) for e in A) for A in (missing, extra)]
        if ph[0] != ph[1]:
            return next(e for e in missing + extra if PHI.search(e))
        f1, f2 = [{x for e in A for x in FORMS.findall(e)} for A in (missing, extra)]
        if f1 ^ f2:
            return next(e for e in missing + extra if set(FORMS.findall(e)) & (f1 ^ f2))
    for A, B in ((missing, extra), (extra, missing)):
        for e in A:
            if len(e) > LONG and NESTED.search(e) and B and not any(near(e, x) for x in B if head(x) == head(e)):
                return e
    for e in bad:
        if e in b:
            l1, l2 = [{y for x in cs for y in x} for cs in (fx(b[e][0]), fx(exp[e]))]
            for X, Y in ((l1 - l2, l2 - l1), (l2 - l1, l1 - l2)):
                for y in X:
                    if len(y) > LONG and NESTED.search(y) and Y and not any(near(y, z) for z in Y):
                        return y
    return None


OPAQUE = re.compile(r"\bunk\b|\|closure\||(?<!leave )\bloop\b")


def judge(P, R, rule, name, body, expected, only=None, conds=True, drop=None, ordered=(), **k):
    """obligations: every effect of the specification happens exactly under its conditions; no other effect on `only`.
    A function whose differing effects contain values the analysis cannot name is reported as undecided, not as wrong."""
    try:
        b = behaviour(P, body, **k)
    except TooMany:
        R.undecided(rule, name, f"`{body.name}` has too many paths to be judged", body.loc())
        return None
    exp = parse(expected)
    s1, s2 = b.pop(SUCC, (TRUTH, ""))[0], exp.pop(SUCC, TRUTH)
    eq = lambda x, y: equiv(x, y, s1, s2)
    fx = lambda cs: frozenset(frozenset(y for y in x if not (drop and re.search(drop, y))) for x in cs)
    extra = [e for e in b if e not in exp and (only is None or re.search(only, e))]
    bad = [e for e in exp if e not in b or conds and not (equiv if e == ACC else eq)(fx(b[e][0]), fx(exp[e]))]
    if bad or extra:
        ok = same_choice(b, exp, bad, extra, eq)
        bad, extra = [e for e in bad if e not in ok], [e for e in extra if e not in ok]
        for e in [e for e in exp if e in ok and e not in b]:
            exp.pop(e)
    vague = [e for e in extra if OPAQUE.search(e)] + [e for e in bad if e in b and OPAQUE.search(cshow(b[e][0])) and not OPAQUE.search(cshow(exp[e]))]
    if vague:
        R.undecided(rule, name, f"`{body.name}`: not modelled: {vague[0][:200]}", body.loc())
        return b
    lost = getattr(getattr(P, "_base", None), "lost_re", None)
    if lost and (bad or extra) and lost.search(expected + "\n".join(extra)):
        R.undecided(rule, name, f"`{body.name}` is specified in terms of an operation that was renamed, removed or given another signature", body.loc())
        return b
    hard = complicated([e for e in bad if e not in b], extra, exp, b, fx, bad)
    if hard:
        R.undecided(rule, name, f"`{body.name}` differs from its specification in a way that is too intricate to judge: {hard[:200]}", body.loc())
        return b
    for e, cs in exp.items():
        if e not in b:
            nr = sorted(x for x in b if x not in exp and x.split(" := ")[0] == e.split(" := ")[0])
            R.ob(rule, f"{name}|{e[:150]}", False, f"`{body.name}` does not do: {e[:300]}" + (f"; instead: {nr[0][:300]}" if nr else ""),
                 (b[nr[0]][1] if nr else "") or body.loc())
        else:
            R.ob(rule, f"{name}|{e[:150]}", e not in bad, f"`{body.name}`: {e[:200]} happens when {cshow(fx(b[e][0]))}, must when {cshow(fx(cs))}", b[e][1] or body.loc())
    ks = list(b)
    for x, y in ordered:
        ix = [i for i, e in enumerate(ks) if re.search(x, e)]
        iy = [i for i, e in enumerate(ks) if re.search(y, e)]
        if ix and iy:
            R.ob(rule, f"{name}|order {x} < {y}", max(ix) < min(iy), f"`{body.name}` does {ks[min(iy)][:120]} before {ks[max(ix)][:120]}", b[ks[min(iy)]][1])
    for e in extra:
        R.ob(rule, f"{name}|{e[:150]}", False, f"`{body.name}` also does: {e[:300]} (when {cshow(b[e][0])[:300]})", b[e][1] or body.loc())
    return b


def cshow(cs):
    return " or ".join(sorted("(" + "; ".join(sorted(x)) + ")" if x else "always" for x in cs)) or "never"
