"""Interprocedural must-execute and ordering queries ("on every success path", "for every element", "A before B")."""
from facts import cname
from terms import Eval, pruned_succ, dominators, switch_info, is_loop_guard, show, alts

LAZY_DROP = {"rev", "skip", "take", "step_by", "take_while", "skip_while", "filter", "filter_map", "map_while", "find", "find_map", "nth",
             "last", "take_any", "skip_any", "position", "any", "all", "first", "min_by", "max_by", "dedup", "split_first", "split_last", "get", "split_at"}


class Event:
    """a set of calls (by callee predicate) and/or statements"""

    def __init__(self, P, name, pred, stmt=None):
        self.P, self.name, self.pred, self.stmt = P, name, pred, stmt
        self._site = {}
        self._contains = None

    def is_site(self, callee):
        if "ptr" in callee:
            return False
        return bool(self.pred(callee))

    def direct_blocks(self, body):
        k = (id(self), body.h)
        c = self._site.get(body.h)
        if c is None:
            c = set()
            r = body.reachable()
            for b, bb in enumerate(body.blocks):
                if not bb or b not in r:
                    continue
                if bb["t"][0] == "call" and self.is_site(bb["t"][1]):
                    c.add(b)
                elif self.stmt and any(self.stmt(body, st) for st in bb["s"]):
                    c.add(b)
            self._site[body.h] = c
        return c

    def contains(self, body):
        """can the body (transitively, through workspace code) reach the event?"""
        if self._contains is None:
            P = self.P
            rev = {}
            seeds = []
            for b in P.bodies:
                if self.direct_blocks(b):
                    seeds.append(b.h)
                for c in P.callees(b):
                    rev.setdefault(c.h, []).append(b.h)
            s, st = set(seeds), list(seeds)
            while st:
                x = st.pop()
                for y in rev.get(x, ()):
                    if y not in s:
                        s.add(y)
                        st.append(y)
            self._contains = s
        return body.h in self._contains


def block_targets(P, body, b):
    """workspace bodies a call block runs: resolved callee(s) and closures / fn items passed to it"""
    t = body.term(b)
    if t[0] != "call":
        return [], []
    f = t[1]
    direct = P.targets(f) if "ptr" not in f else []
    cl = []
    for o in t[2]:
        if isinstance(o, list):
            ty = body.lty(o[0]).peel() if len(o) == 1 else None
            if ty is not None and ty.k == "closure":
                for cb in P.by_path.get(ty.d, []):
                    if cb.kind == "closure":
                        cl.append(cb)
        elif o.get("c") == "fn":
            cl.extend(P.targets(o["fn"]))
    if "ptr" not in f and f.get("tr", "").startswith("core::ops::function::") and t[2]:
        o = t[2][0]
        if isinstance(o, list):
            ty = body.lty(o[0]).peel()
            if ty.k == "closure":
                direct = direct + [cb for cb in P.by_path.get(ty.d, []) if cb.kind == "closure"]
    return direct, cl


def ev_blocks(P, body, e):
    """blocks of this body from which the event can happen"""
    k = ("evb", id(e))
    c = body._cache.get(k)
    if c is None:
        c = set(e.direct_blocks(body))
        for b in body.reachable():
            bb = body.blocks[b]
            if bb and bb["t"][0] == "call":
                d, cl = block_targets(P, body, b)
                if any(e.contains(x) for x in d + cl):
                    c.add(b)
        body._cache[k] = c
    return c


def loops(P, body):
    """natural loops on the success-path graph: header -> set of blocks"""
    c = body._cache.get("loops")
    if c is not None:
        return c
    dom = dominators(body)
    succ = pruned_succ(P, body)
    out = {}
    # loops may only be visible in the full graph (a body that always errors after one round is no loop)
    for a in succ:
        for s in succ[a]:
            if a in dom and s in dom[a]:
                L = out.setdefault(s, {s})
                st = [a]
                while st:
                    x = st.pop()
                    if x not in L:
                        L.add(x)
                        st.extend(p for p in body.pred(x) if p in succ)
    body._cache["loops"] = out
    return out


def covers(P, body, e, stack=()):
    """blocks that certainly perform the event (loops: for each element)"""
    key = ("cov", id(e))
    c = body._cache.get(key)
    if c is not None:
        return c
    cov = set(e.direct_blocks(body))
    for b in body.reachable():
        bb = body.blocks[b]
        if b in cov or not bb or bb["t"][0] != "call":
            continue
        d, cl = block_targets(P, body, b)
        if d and all(e.contains(x) and must(P, x, e, stack + (body.h,)) for x in d if x.h not in stack) and any(e.contains(x) for x in d):
            cov.add(b)
        elif any(e.contains(x) and x.h not in stack and must(P, x, e, stack + (body.h,)) for x in cl):
            cov.add(b)
    succ = pruned_succ(P, body)
    for h, L in sorted(loops(P, body).items(), key=lambda x: len(x[1])):
        # a path h -> ... -> h inside L avoiding cov?
        if not (L & ev_blocks(P, body, e)):
            continue
        if h in cov:
            continue
        seen, st, bad = set(), [s for s in succ.get(h, []) if s in L and s not in cov], False
        while st:
            x = st.pop()
            if x == h:
                bad = True
                break
            if x in seen:
                continue
            seen.add(x)
            st.extend(s for s in succ.get(x, []) if s in L and s not in cov)
        if not bad:
            cov.add(h)
    if not stack:
        body._cache[key] = cov
    return cov


def escape(P, body, e, stack=()):
    """None if every success path performs the event, else an escaping path"""
    from terms import must_pass
    return must_pass(P, body, covers(P, body, e, stack))


def must(P, body, e, stack=()):
    return escape(P, body, e, stack) is None


def incomplete_loops(P, body, e, depth=6, seen=None):
    """loops/adapters around the event that may skip elements: list of (body, block, why)"""
    seen = set() if seen is None else seen
    if body.h in seen or depth < 0:
        return []
    seen.add(body.h)
    out = []
    ev = Eval(P, body, depth=2)
    evb = ev_blocks(P, body, e)
    succ = pruned_succ(P, body)
    for h, L in loops(P, body).items():
        if not (L & evb):
            continue
        exits = [(a, s) for a in L for s in succ.get(a, []) if s not in L]
        hdr_next = None
        for a, s in exits:
            if body.term(a)[0] == "switch" and is_loop_guard(ev, a) == "next":
                hdr_next = a
                continue
            if body.term(a)[0] == "switch" and h == a:
                continue
            # leaving the loop early: allowed only when no event is possible later in the loop anyway
            out.append((body, a, "the loop can be left before every element was handled"))
        if hdr_next is not None:
            for nm in adapters_of_next(P, ev, L):
                if nm in LAZY_DROP:
                    out.append((body, h, f"the iteration drops elements (`{nm}`)"))
    for b in evb:
        bb = body.blocks[b]
        if not bb or bb["t"][0] != "call":
            continue
        d, cl = block_targets(P, body, b)
        f = bb["t"][1]
        if any(e.contains(x) for x in cl) and bb["t"][2]:
            t = ev.args_of(b)[0]
            for nm in chain_names(t) | ({cname(f)} if cname(f) in ("find", "find_map", "take_while", "skip_while", "position", "any", "all", "map_while") else set()):
                if nm in LAZY_DROP:
                    out.append((body, b, f"the iteration drops elements (`{nm}`)"))
        for x in d + cl:
            if e.contains(x) and x.h not in seen and x.h != body.h:
                out.extend(incomplete_loops(P, x, e, depth - 1, seen))
    return out


def chain_names(t):
    """adapters an iterator term went through; a `rev` on one side of a zip shows up as `rev`"""
    names = _chain_names(t)
    if "zip" not in names:
        names.discard("rev")
    return names


def _chain_names(t):
    names = set()
    st = [t]
    while st:
        x = st.pop()
        if x[0] == "phi":
            st.extend(x[1])
        elif x[0] == "call" and x[3] and (x[1].startswith(("core::", "alloc::", "rayon::", "std::", "<")) or "iter" in x[1]):
            names.add(x[2])
            st.append(x[3][0])
            if x[2] == "zip":
                st.append(x[3][1])
        elif x[0] == "index":
            tt = x[2]
            if tt[0] == "agg" and "Range" in tt[1] and tt[2] != "RangeFull":
                names.add("get")
            st.append(x[1])
    return names


def adapters_of_next(P, ev, L):
    names = set()
    for b in L:
        bb = ev.body.blocks[b]
        if bb and bb["t"][0] == "call" and cname(bb["t"][1]) == "next":
            a = ev.args_of(b)
            if a:
                names |= chain_names(a[0])
    return names


def acyclic_succ(P, body):
    dom = dominators(body)
    succ = pruned_succ(P, body)
    return {a: [s for s in ss if not (a in dom and s in dom[a])] for a, ss in succ.items()}


def order(P, body, a, b, depth=6, stack=()):
    """violations of 'event a happens before event b' inside body; list of (body, block, why).
    In each frame where both are possible: no a after a b (loop back edges aside), and each b is preceded by a."""
    out = []
    if depth < 0 or body.h in stack:
        return out
    A, B = ev_blocks(P, body, a), ev_blocks(P, body, b)
    both = A & B
    succ = acyclic_succ(P, body)
    if body.blocks[0] is None:
        return out
    covA = covers(P, body, a)
    for blk in both:
        bb = body.blocks[blk]
        if bb["t"][0] != "call":
            continue
        d, cl = block_targets(P, body, blk)
        for x in d + cl:
            if a.contains(x) and b.contains(x):
                out += order(P, x, a, b, depth - 1, stack + (body.h,))
    for blk in B - both:
        # reachable a after b
        seen, st = set(), list(succ.get(blk, []))
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in A:
                out.append((body, x, f"{a.name} can run after {b.name} ({body.loc(blk)})"))
                break
            st.extend(succ.get(x, []))
        # every path to blk passes covA
        if A and blk not in covA:
            seen, st, bad = set(), [0] if 0 not in covA else [], False
            while st:
                x = st.pop()
                if x == blk:
                    bad = True
                    break
                if x in seen:
                    continue
                seen.add(x)
                st.extend(s for s in succ.get(x, []) if s not in covA)
            if bad:
                out.append((body, blk, f"{b.name} can run without {a.name} before it"))
    return out
