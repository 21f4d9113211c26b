"""Decision tables: for a body without interesting loops, every acyclic success path with the conditions it tests, the value it
returns and the memory it writes. Helpers are expanded, so the table does not depend on how the code is split up; rows that
only differ in a test that makes no difference are merged."""
import terms
import re
from terms import NONE, Eval, pruned_succ, switch_info, root_of, alts, CONT, is_loop_guard, phi, dropflag
from facts import cname
from terms import is_std
from spec import canon, gone, expand
from order import loops


class PathEval(Eval):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.path, self.pos, self.forced, self.known, self.mem, self.acts, self.gat, self.locs, self.fcond = [], {}, {}, {}, {}, (), {}, {}, ()
        self.leaving, self.exited, self.loopx, self.each = False, frozenset(), (), {}
        self.acts_of = None

    def fork(self):
        e = PathEval(self.P, self.body, self.env, self.depth, self.opaque, self.stack)
        e.path, e.pos, e.forced, e.known = list(self.path), dict(self.pos), dict(self.forced), dict(self.known)
        e.mem, e.acts, e.gat = dict(self.mem), self.acts, dict(self.gat)
        e.acts_of = self.acts_of
        e.memo, e.locs, e.fcond, e.exited, e.loopx, e.each = dict(self.memo), self.locs, self.fcond, self.exited, self.loopx, self.each
        return e

    def reaching(self, l, b, i):
        whole = self.defs()[0].get(l, [])
        if b not in self.pos:
            return super().reaching(l, b, i)
        best = None
        for (db, di) in whole:
            if db in self.pos and (self.pos[db] < self.pos[b] or (db == b and di < i)):
                if best is None or (self.pos[db], di) > (self.pos[best[0]], best[1]):
                    best = (db, di)
        if best is not None:
            return {best}
        return {"entry"} if 1 <= l <= self.body.nargs else super().reaching(l, b, i)

    def local(self, l, b, i):
        ds = self.defs()[0].get(l, [])
        n = self.body.nargs
        if 1 <= l <= n and not ds:
            return self.env[l - 1]
        if not ds and l not in self.defs()[1]:
            return ("unk", self.body.p, l)
        ts = []
        ind = counting(self.P, self.body)[0].get(l)
        for d in sorted(self.reaching(l, b, i), key=str):
            if ind and b in self.pos and ind[0] in self.pos and self.pos[ind[0]] <= self.pos[b]:
                inL = d != "entry" and d[0] in ind[1]
                x = self.over(ind[0]) if not inL or ind[0] in self.exited else None
                if x is not None and (inL or cnum0(self.def_term(l, d) if d != "entry" else self.env[l - 1])):
                    ts.append(lenof(x) if ind[0] in self.exited else ("idx", x))
                    continue
            t = self.env[l - 1] if d == "entry" and 1 <= l <= n else self.def_term(l, d) if d != "entry" else ("unk", self.body.p, l)
            if b in self.pos and len(ds) > 1 and self.carried(l, d, b, ds):
                t = ("acc", t)
            ts.append(t)
        return phi(ts) if ts else ("unk", self.body.p, l)

    def over(self, h):
        """the collection (or range) the loop with header h ranges over"""
        ind, cg = counting(self.P, self.body)
        for x, (hh, l, (db, di, o)) in cg.items():
            if hh == h and db in self.pos:
                n = self.operand(o, db, di)
                if n[0] == "call" and n[2] == "len":
                    return norange(n[3][0])
                return ("agg", "core::ops::range::Range", "Range", (("start", ("c", "0", "usize")), ("end", n)))
        L = loops(self.P, self.body)[h]
        for x in sorted(L):
            if x in self.pos and self.body.term(x)[0] == "switch" and is_loop_guard(self, x) == "next" \
                    and h == min((y for y, M in loops(self.P, self.body).items() if x in M), key=lambda y: len(loops(self.P, self.body)[y])):
                it = iterof(self, x)
                if it is not None and not filt(self, it):
                    return ground(norange(it))
        return None

    def carried(self, l, d, b, ds):
        """is the value read at b possibly the one an earlier iteration of a loop around b assigned?"""
        db = d[0] if d != "entry" else -1
        for h, L in loops(self.P, self.body).items():
            if h in self.pos and self.pos[h] <= self.pos[b] and db not in L and (db < 0 or db in self.pos and self.pos[db] < self.pos[h]) and any(x in L for x, _ in ds):
                return True
        return False

    def flows(self, db, di, b, i):
        if b in self.pos:
            return db in self.pos and (self.pos[db] < self.pos[b] or (db == b and di < i))
        return super().flows(db, di, b, i)

    def proj(self, t, p, b, i):
        r = super().proj(t, p, b, i)
        return unindex(r) if r[0] == "index" else r

    def call(self, f, args):
        r = super().call(f, args)
        if r[0] == "index":
            return unindex(r)
        if r[0] == "call" and r[2] in ("collect", "collect_vec") and len(r[3]) == 1 and is_std_iter(f):
            return self.listof(r[3][0])
        if r[0] == "call" and r[2] == "unzip" and len(r[3]) == 1 and is_std(f):
            l = self.listof(r[3][0])
            if l[0] == "list" and all(i[1][0] == "tuple" and len(i[1][1]) == 2 for i in l[1:]):
                return ("tuple", tuple(("list",) + tuple(("item", i[1][1][k]) + i[2:] for i in l[1:]) for k in (0, 1)))
            return r
        if r[0] == "call" and r[2] in ("sum", "product") and len(r[3]) == 1 and is_std(f):
            o, z = ("Add", "0") if r[2] == "sum" else ("Mul", "1")
            return ("op", o, (("acc", ("c", z, "f64")), self.elem(r[3][0])))
        if r[0] == "call" and r[2] in ("fold", "try_fold") and len(r[3]) == 3 and is_std(f):
            return self.apply(r[3][2], [("acc", r[3][1]), self.elem(r[3][0])])
        return r

    def listof(self, it, fx=None):
        """the elements an iterator yields, each with the conditions under which it is yielded; fx collects the effects of its closures"""
        if self.elem(it) == ("elem", it):
            return it
        ms = self.items(it, fx if fx is not None else [])
        if ms is None:
            e = self.elem(it)
            ms = [(tuple(("cond",) + c[1:] for c in filt(self, it)), x) for x in alts(e)]
        else:
            ms = [(tuple(("cond",) + c[1:] for c in cs), x) for cs, x in ms]
        if len(ms) == 1 and ms[0][1][0] == "elem" and not ms[0][0]:
            return ms[0][1][1]
        x = norange(chainbase(it))
        each = (("cond", ("call", "", "for each", (x,)), frozenset({"true"}), BOOL),) if x[0] in ("agg", "call", "f", "arg") else ()
        return ("list",) + tuple(("item", e) + cs + (each if not mentions(e, x) else ()) for cs, e in ms)

    def items(self, it, fx):
        """[(conditions, element)] of an iterator chain, following every path of its closures; None if some part is not modelled"""
        if it[0] == "list":
            return [(tuple(("bool",) + c[1:] for c in i[2:]), i[1]) for i in it[1:]]
        if it[0] == "call" and it[3]:
            n, a = it[2], it[3]
            if n in ("iter", "into_iter", "iter_mut", "by_ref", "cloned", "copied", "par_iter", "into_par_iter"):
                return self.items(a[0], fx) if len(a) == 1 else None
            if n in ("map", "filter", "filter_map") and len(a) == 2 and a[1][0] == "closure":
                ms = self.items(a[0], fx)
                cb = self.P.by_hash.get(a[1][1])
                if ms is None or cb is None or cb.nargs != 2 or self.depth <= 0 or cb.h in self.stack:
                    return None
                out = []
                for cs, x in ms:
                    try:
                        rs = table(self.P, cb, [a[1], x], self.depth - 1, self.opaque, None, self.acts_of, self.stack + (self.body.h,), 60, [2000], self.mem, self.known)
                    except TooMany:
                        return None
                    for r in rs:
                        if r.mem != self.mem:
                            return None
                        c2 = cs
                        for c in r.conds:
                            c2 = addcond(c2, c) if c2 is not None else None
                        if c2 is None:
                            continue
                        fx += [(c2 + c, t) for c, t in r.acts]
                        if n == "map":
                            out.append((c2, r.value))
                        elif n == "filter":
                            for c in boolalts(c2, r.value, "true"):
                                out.append((c, x))
                        elif r.value != NONE:
                            if r.known.get(r.value) == "Some" or r.value[0] == "agg" or decide(self, r.value, "discr") == {"Some"}:
                                out.append((c2, r.value))
                            else:
                                c = addcond(c2, ("discr", r.value, frozenset({"Some"}), OPTV))
                                if c is not None:
                                    out.append((c, r.value))
                return out
        e = self.elem(it)
        fl = tuple(filt(self, it))
        return [(fl, e)] if e[0] != "phi" else None

    def elem(self, t):
        if t[0] == "list" and len(t) > 1:
            return phi([i[1] for i in t[1:]])
        return super().elem(t)

    def seen(self, t, p, b, i):
        return self.read(self.proj(t, p, b, i))

    def read(self, t):
        if self.mem:
            if t in self.mem:
                return self.mem[t]
            if t[0] == "index" and ("elem", t[1]) in self.mem:
                return self.mem[("elem", t[1])]
        if t[0] in ("f", "v") and isown(root_of(t)):
            return self.unown(t)
        return t

    def unown(self, t):
        """a part of a structure a caller owns, as that caller made it"""
        if isown(t):
            return t[3][0]
        if t in self.mem:
            return self.mem[t]
        if t[0] == "f":
            y = self.unown(t[1])
            return self.field(y, t[3], t[2])
        if t[0] == "v":
            return (t[0], self.unown(t[1])) + t[2:]
        return t

    def write(self, t, v, loc=None):
        if loc:
            self.locs[t] = loc
        self.gat.pop(t, None)
        if v != t:
            for k in [k for k in self.mem if k != t and under(k, t)]:
                del self.mem[k]
            self.mem[t] = v
            if self.fcond:
                self.gat[t] = ((self.fcond, v),)
        else:
            self.mem.pop(t, None)

    def place(self, pl, b, i):
        """what was last assigned to this place on the path, with later assignments to parts of it"""
        projs = pl[1:]
        part = self.defs()[1].get(pl[0])
        ups = []
        if part and b in self.pos:
            names = [p for p in projs if p != "*"]
            whole = max(((self.pos[db], di) for db, di in self.defs()[0].get(pl[0], []) if db in self.pos and self.flows(db, di, b, i) and (self.pos[db], di) < (self.pos[b], i)), default=None)
            best = None
            for (db, di) in part:
                bb = self.body.blocks[db]
                dpl = bb["s"][di][0] if di < len(bb["s"]) else bb["t"][3]
                dn = [p for p in dpl[1:] if p != "*"]
                if not dn or db not in self.pos or not self.flows(db, di, b, i) or whole is not None and (self.pos[db], di) < whole:
                    continue
                k = (self.pos[db], di)
                if len(dn) <= len(names):
                    if all(self._same(x, y) for x, y in zip(dn, names)) and (best is None or k > best[0]):
                        best = (k, db, di, len(dn))
                elif all(self._same(x, y) for x, y in zip(dn, names)) and "*" not in dpl[1:len(projs) + 2] and all(p[0] == "f" for p in dn[len(names):]):
                    ups.append((k, db, di, dn[len(names):]))
            v = None
            if best is not None:
                _, db, di, n = best
                v = self.defval(db, di)
                for p in names[n:]:
                    v = self.proj(v, p, b, i)
            ups = sorted((x for x in ups if best is None or x[0] > best[0]), key=lambda x: x[0])
            if best is not None and not ups:
                return v
            if ups:
                key = ("whole", pl[0])
                if key not in self.busy:
                    self.busy.add(key)
                    if v is None:
                        v = self.local(pl[0], b, i)
                        for p in projs:
                            v = self.seen(v, p, b, i)
                    for _, db, di, rest in ups:
                        v = self.updated(v, rest, self.defval(db, di))
                    self.busy.discard(key)
                    return v
        if b not in self.pos:
            return super().place(pl, b, i)
        t = self.local(pl[0], b, i)
        if not projs and self.mem:
            t = self.read(t) if isplace(t) else t
        for p in projs:
            t = self.seen(t, p, b, i)
        return t

    def defval(self, db, di):
        bb = self.body.blocks[db]
        return self.rvalue(bb["s"][di][1], db, di) if di < len(bb["s"]) else self.call_term(db)

    def updated(self, v, steps, x):
        """the structure v with one field replaced"""
        if not steps:
            return x
        _, name, owner = steps[0][:3]
        a = self.P.adts.get(owner.split("<")[0]) or self.P.adts.get(owner)
        if v[0] == "phi":
            return phi([self.updated(y, steps, x) for y in v[1]])
        if v[0] == "tuple" and name.isdigit() and int(name) < len(v[1]):
            return ("tuple", tuple(self.updated(y, steps[1:], x) if n == int(name) else y for n, y in enumerate(v[1])))
        if a is None or len(a.variants) != 1 or owner.endswith("Timings") or v[0] in ("unk", "never", "errv"):
            return v
        (vn, (_, fs)), = a.variants.items()
        nm = terms.FREN.get((owner.split("::")[-1], name), name)
        out = []
        for f in fs:
            f = terms.FREN.get((owner.split("::")[-1], f), f)
            y = self.field(v, f, owner)
            y = self.read(y) if isplace(y) else y
            out.append((f, self.updated(y, steps[1:], x) if f == nm else y))
        return ("agg", owner, owner.split("::")[-1], tuple(out))

    def env_target(self, o, b):
        """the place a `&mut place` operand designates, if it is memory of the caller"""
        m, self.mem = self.mem, {}
        memo, self.memo = self.memo, {}
        t = self.operand(o, b, len(self.body.blocks[b]["s"]))
        self.mem, self.memo = m, memo
        return t if isplace(t) else None

    def target(self, pl, b, i):
        t = self.local(pl[0], b, i)
        for p in pl[1:]:
            t = self.proj(t, p, b, i)
        return t

    def call_term(self, b):
        if b in self.forced:
            return self.forced[b]
        f = self.body.term(b)[1]
        n = cname(f)
        if n in ("new", "with_capacity", "default") and "ptr" not in f:
            m = COLL.match(f.get("r") or f.get("p", ""))
            if m:
                return ("vec", m.group(1), (self.body.h, b, hash(tuple(self.env))))
        if n == "box_assume_init_into_vec_unsafe":       # vec![..]
            for i, st in reversed(list(enumerate(self.body.blocks[b]["s"]))):
                if st[1][0] == "agg" and st[1][1][0] == "array":
                    a = self.rvalue(st[1], b, i)
                    if a[0] == "array":
                        return ("list",) + tuple(("item", x) for x in a[1])
        return super().call_term(b)

    def ref(self, rv, b, i):
        """a mutable borrow of caller's memory stands for the place, whatever was written to it"""
        if rv[2] and self.mem and b in self.pos:
            t = self.target(rv[1], b, i)
            if isplace(t) and self.read(t) != t:
                return t
        return self.place(rv[1], b, i)

    def rvalue(self, rv, b, i):
        t = super().rvalue(rv, b, i)
        if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][2] in ("Some", "Ok") and t[0] not in ("loop",):
            self.known[t] = rv[1][2]
        return t


def isown(t):
    return t[0] == "call" and t[2] == "own_mut"


def lend(ev, tb, args):
    """a structure this function owns and lends to a helper is memory to the helper"""
    out = []
    for i, v in enumerate(args):
        ty = tb.lty(i + 1).s
        if v[0] in ("agg", "call") and ty.startswith("&mut ") and not isplace(v) and LENT.match(ty):
            v = ("call", "", "own_mut", (v,))
        out.append(v)
    return out


INT = re.compile(r"^[ui](size|8|16|32|64|128)$")
LENT = re.compile(r"&mut (?:'\w+ )?(?:pywr\w*|ipm_\w+)::(?!\S*Timings)")


def owned(body, pl):
    """a part of a structure this function owns (and not something it borrows)"""
    return pl[1] != "*" and body.lty(pl[0]).k not in ("ref", "ptr") and all(p[0] == "f" for p in pl[1:])


def isplace(t):
    """memory of the caller: reached from a parameter, or what an accessor named `*_mut` hands out"""
    r = root_of(t)
    return r[0] == "arg" or (r[0] == "call" and (r[2].endswith("_mut") and len(r[3]) >= 1 or r[2] == "from_elem" and r != t))


def chainbase(it):
    while it[0] == "call" and it[3] and it[2] in ("map", "iter", "into_iter", "enumerate", "by_ref", "filter", "rev", "filter_map", "cloned", "copied"):
        it = it[3][0]
    return it


def bases(i):
    """the collections whose elements a list's element is made of"""
    from terms import subterms
    return list(dict.fromkeys(u[1] for u in subterms(i[1]) if u[0] in ("elem", "idx")))


def ground(x):
    """a list with one element for each element of another collection is as good as that collection"""
    while x[0] == "list" and len(x) == 2:
        fe = [c[1][3][0] for c in x[1][2:] if c[1][0] == "call" and c[1][2] == "for each"]
        if len(fe) != len(x[1]) - 2:
            break
        ys = fe or bases(x[1])
        if len(ys) != 1:
            break
        x = norange(ys[0])
    return x


def mentions(t, x):
    from terms import subterms
    x = base(x)
    if x[0] == "list" and len(x) == 2 and len(x[1]) == 2:
        return any(mentions(t, y) for y in bases(x[1]))
    if x[0] == "array":
        return True
    if x[0] == "call" and x[2] in ("zip", "chain", "enumerate", "map", "filter", "rev", "cloned", "copied", "filter_map", "take", "skip") and any(mentions(t, y) for y in x[3]):
        return True
    return any(u[0] in ("elem", "idx") and (u[1] == x or norange(u[1]) == x) for u in subterms(t))


def cnum0(t):
    return t[0] == "c" and str(t[1]).split("_")[0] == "0"


def lenof(x):
    if x[0] == "agg" and x[2] == "Range":
        return dict(x[3])["end"]
    return ("call", "", "len", (x,))


def iterof(ev, sw):
    """the iterator a loop's `next` switch draws from"""
    body = ev.body
    op = body.blocks[sw]["t"][1]
    for (db, di) in ev.defs()[0].get(op[0], []):
        rv = body.blocks[db]["s"][di][1]
        for (cb, ci) in ev.defs()[0].get(rv[1][0], []):
            if ci == len(body.blocks[cb]["s"]) and body.term(cb)[0] == "call" and cname(body.term(cb)[1]) == "next":
                return ev.args_of(cb)[0]
    return None


def is_std_iter(f):
    return is_std(f) or "itertools" in f.get("p", "")


def unindex(t):
    """an element picked by a plain counting index is an element of the collection"""
    i = t[2]
    if i[0] == "idx":
        return ("elem", t[1])
    if i[0] == "elem" and i[1][0] == "agg" and i[1][2] in ("Range", "RangeInclusive"):
        fs = dict(i[1][3])
        if str(fs.get("start", (0, 0))[1]).startswith("0") and fs.get("end", ("", "", ""))[0] == "call" and fs["end"][2] == "len":
            return ("elem", t[1])
    return t


def under(k, t):
    while k[0] in ("f", "v", "index", "elem"):
        if t[0] == "elem" and k[0] == "index" and k[1] == t[1]:
            return True
        k = k[1]
        if k == t:
            return True
    return False


UNIT = re.compile(r"^(\(\)|(core|std)::result::Result<\(\), .*>)$")


class Row:
    """conds: conditions; value: returned term; mem: {place: final value}; acts: calls with effects, in order;
    gat: {place: ((conds, value), ...)} for places a helper wrote under conditions of its own"""
    __slots__ = ("conds", "value", "mem", "acts", "loc", "known", "gat", "locs")

    def __init__(self, conds, value, mem, acts, loc, known=None, gat=None, locs=None):
        self.locs = locs or {}
        self.conds, self.value, self.mem, self.acts, self.loc, self.known, self.gat = conds, value, mem, acts, loc, known or {}, gat or {}

    def writes(self):
        """[(extra conds, place, value)]"""
        out = []
        for t, v in self.mem.items():
            if t in self.gat:
                out += [(c, t, x) for c, x in self.gat[t]]
            else:
                out.append(((), t, v))
        return out

    def effs(self):
        return tuple(sorted((canon(t), canon(v)) for c, t, v in self.writes() if canon(t) != canon(v)))

    def calls(self):
        return tuple(canon(a) for c, a in self.acts)


def parts(v, p="", d=0):
    """(field path, term, conditions): a structure built in place is judged field by field, a list item by item"""
    if v[0] == "agg" and v[3] and len(v[3]) > 1 and d < 4:
        yield p, ("c", v[2] + "{}", ""), ()
        for n, x in v[3]:
            yield from parts(x, f"{p}.{n}", d + 1)
    elif v[0] == "tuple" and len(v[1]) > 1 and d < 4:
        for n, x in enumerate(v[1]):
            yield from parts(x, f"{p}.{n}", d + 1)
    elif v[0] == "call" and v[2] == "new" and len(v[3]) == 1 and v[3][0][0] == "agg" and d < 4:
        yield from parts(v[3][0], p, d)
    elif v[0] == "list" and len(v) > 1:
        yield p, ("c", "list", ""), ()
        for it in v[1:]:
            yield p + "[]", it[1], tuple(("bool",) + c[1:] for c in it[2:])
    else:
        yield p, v, ()


COLL = re.compile(r"^<?(?:alloc|std|hashbrown|indexmap)::.*\b(Vec|VecDeque|HashMap|HashSet|BTreeMap|BTreeSet|IndexMap)\b")
GROW = {"push", "push_back", "insert", "extend"}
SHRINK = {"clear", "pop", "pop_front", "pop_back", "remove", "truncate", "retain", "swap_remove", "drain", "entry", "resize", "append", "push_front", "swap"}


def listed(rows):
    """a local collection that is only ever added to stands for the list of what is added to it, so that building it by pushing
    in a loop and collecting an iterator chain look the same"""
    from terms import subterms
    adds, bad, seen = {}, set(), {}

    def toks(x):
        return {u for u in subterms(x) if u[0] == "vec"}
    for i, r in enumerate(rows):
        for n, (c, a) in enumerate(r.acts):
            t = a[3][0] if a[3] else None
            if t is not None and t[0] == "vec":
                if a[2] in GROW and (a[2] != "insert" or t[1] not in ("Vec", "VecDeque")) and a[2] != "extend":
                    adds.setdefault(t, []).append((i, n, c, a))
                elif a[2] in SHRINK or a[2] in ("insert", "extend"):
                    bad.add(t)
        for t in toks((("x",) + tuple(r.conds), ("x", r.value), ("x",) + tuple(r.mem.items()), ("x",) + tuple(r.acts), ("x",) + tuple(r.gat.items()))):
            seen.setdefault(t, []).append(i)
    if not seen:
        return rows
    lst = {}
    for t, xs in adds.items():
        if t in bad:
            continue
        common = None
        for i in seen[t]:
            l = lits(rows[i].conds)
            common = l if common is None else {s: v for s, v in common.items() if l.get(s) == v}
        by = {}
        for i, n, c, a in xs:
            v = a[3][1] if len(a[3]) == 2 else ("tuple", tuple(a[3][1:]))
            l = {s: v for s, v in lits(rows[i].conds + c).items() if common.get(s) != v}
            e = by.setdefault(canon(v), [v, [], 0])
            e[1].append(l)
            e[2] = max(e[2], n)
        its = []
        for k, (v, ls, n) in sorted(by.items(), key=lambda z: (z[1][2], z[0])):
            for l in merge(ls):
                its.append(("item", v) + tuple(("cond", ("c", s, ""), x[0], x[1]) for s, x in sorted(l.items())))
        lst[t] = its[0][1][1] if len(its) == 1 and len(its[0]) == 2 and its[0][1][0] == "elem" else ("list",) + tuple(its)
    memo = {}

    def go(t, inside=()):
        if not isinstance(t, tuple):
            return t
        if t and t[0] == "vec" and len(t) == 3:
            if t in inside:
                return ("call", "", "itself", ())
            if t in lst:
                return tuple(go(x, inside + (t,)) for x in lst[t])
            return ("vec", "", ())
        k = (t, inside)
        r = memo.get(k)
        if r is None:
            r = memo[k] = tuple(go(x, inside) for x in t)
        return r
    out = []
    for r in rows:
        acts = tuple((c, a) for c, a in r.acts if not (a[3] and a[3][0] in lst and a[2] in GROW))
        out.append(Row(go(r.conds), go(r.value), {go(k): go(v) for k, v in r.mem.items()}, go(acts), r.loc, r.known,
                       {go(k): go(v) for k, v in r.gat.items()}, {go(k): v for k, v in r.locs.items()}))
    return out


def spell(P, opaque=None, acts=None, depth=3, level=0):
    """rewrites terms so that a closure that is passed on (not applied by the code itself) appears as the table of its body"""
    memo = {}

    def lam(t):
        cb = P.by_hash.get(t[1])
        if cb is None or level > 2:
            return ("c", "|closure|", "")
        env = [t] + [("arg", f"x{level or ''}{'abcdefgh'[i] if i < 8 else i}") for i in range(cb.nargs - 1)]
        try:
            rs = table(P, cb, env, depth, opaque, None, acts, (), 200, [4000])
        except TooMany:
            return ("c", "|closure|", "")
        g = gated(rs, lam=spell(P, opaque, acts, depth, level + 1))
        ls = []
        for k, (cs, w) in sorted(g.items()):
            k = k[7:] if k.startswith("return ") else k
            ls.append(k if cs == frozenset({frozenset()}) else k + " if " + " | ".join(sorted(" & ".join(sorted(x)) for x in cs)))
        return ("c", "|" + " / ".join(ls) + "|", "")

    def go(t):
        if not isinstance(t, tuple):
            return t
        try:
            r = memo.get(t)
        except TypeError:
            return t
        if r is None:
            if t and t[0] == "closure" and len(t) == 3 and isinstance(t[2], tuple):
                r = lam(t)
            else:
                r = tuple(go(x) for x in t)
                r = t if r == t else r
            memo[t] = r
        return r

    def row(r):
        if not any("closure" in str(x) for x in (r.conds, r.value, r.mem, r.acts, r.gat)):
            return r
        return Row(go(r.conds), go(r.value), {go(k): go(v) for k, v in r.mem.items()}, go(r.acts), r.loc, r.known,
                   {go(k): go(v) for k, v in r.gat.items()}, {go(k): v for k, v in r.locs.items()})
    return row


def gated(rows, ab=lambda s: s, lam=None, success=None):
    """{effect: (merged conditions, where)}; effect = 'place := value', 'call(..)' or 'return value'"""
    d, w, acts = {}, {}, {}
    if lam is not None:
        rows = [lam(r) for r in rows]
    rows = listed(rows)

    def ls(cs):
        out = {}
        for s, (l, a) in lits(cs).items():
            s = ab(s)
            if s in out:
                out[s] = (out[s][0] & l, out[s][1] | a) if out[s][1] & a else out[s]
            else:
                out[s] = (l, a)
        return out

    def put(k, cs, where):
        k = ab(k)
        d.setdefault(k, []).append(ls(cs))
        w.setdefault(k, where)
    for r in rows:
        for c, t, v in r.writes():
            ct, cv = canon(t), canon(v)
            if ct != cv:
                for n, y, k in parts(v):
                    for x in expand(y):
                        cx = canon(x)
                        if n or cx != ct:
                            put(f"{ct}{n} := {cx}", r.conds + c + k, r.locs.get(t, ""))
        for c, a in r.acts:
            acts.setdefault(skeleton(a), {}).setdefault(canon(a), []).append((a, r.conds + c, r.locs.get(a, "")))
        for n, y, k in parts(r.value):
            for v in expand(y):
                if canon(v) != "()":
                    put(f"return{n} " + canon(v), r.conds + k, r.loc)
    for sk, vs in acts.items():
        for ca, xs in vs.items():
            for a, c, loc in xs:
                if len(vs) <= 3:
                    put(ca, c, loc)
                    continue
                put(sk, c, loc)
                for n, x in enumerate(a[3]):
                    ps = list(parts(x)) if x[0] == "agg" or x[0] == "call" and x[2] == "new" else []
                    for m, y, k in ps[1:]:
                        for z in expand(y):
                            put(f"{sk}{m} = {canon(z)}", c + k, loc)
    S = merge([ls(r.conds) for r in rows])
    out = {k: (texts(given(merge(v), S)), w[k]) for k, v in d.items()}
    if success is not None and S and not any(not c for c in S):
        out[success] = (texts(S), "")
    return out


def texts(cs):
    return frozenset(frozenset(lit(s, l, u) for s, (l, u) in c.items()) for c in cs)


def accepted(rows, ab=lambda s: s, lam=None):
    """the tests (other than on absent or failed values) a call has to pass to succeed, or None if there are none"""
    rows = listed([lam(r) for r in rows] if lam else rows)
    cs = []
    for r in rows:
        c = {ab(s).replace("?", ""): x for s, x in lits(r.conds).items() if x[0] not in (frozenset({"Some"}), frozenset({"Ok"}))}
        if not c:
            return None
        cs.append(c)
    S = merge(cs)
    return None if not S or any(not c for c in S) else texts(S)


def given(cs, S):
    """conditions under which something happens, given that the function succeeds (S): literals that only say so are dropped"""
    if any(not c for c in S) or len(S) > 40 or len(cs) > 40:
        return cs
    ch = True
    while ch:
        ch = False
        for c in cs:
            for s in sorted(c):
                x = {k: v for k, v in c.items() if k != s}
                ok = True
                for z in S:
                    y = both(x, z)
                    if y is not None and not any(covers(o, y) for o in cs):
                        ok = False
                        break
                if ok:
                    cs = merge([o for o in cs if o is not c] + [x])
                    ch = True
                    break
            if ch:
                break
    return cs


def both(x, y):
    out = dict(x)
    for k, (l, a) in y.items():
        if k in out:
            l2 = out[k][0] & l
            if not l2:
                return None
            out[k] = (l2, out[k][1] | a)
        else:
            out[k] = (l, a)
    return out


def skeleton(a):
    """an action with the structures it passes reduced to their type and name"""
    xs = []
    for x in a[3]:
        ps = list(parts(x)) if x[0] == "agg" or x[0] == "call" and x[2] == "new" else []
        if len(ps) > 1:
            xs.append(ps[0][1][1][:-1] + ", ".join(canon(y) for m, y, k in ps[1:] if m.split(".")[-1] in ("name", "sub_name", "parent", "0")) + "}")
        else:
            xs.append(canon(x))
    return f"{a[2]}({', '.join(xs)})"


def counting(P, body):
    """({local: (header, loop, block of its increment)}, {switch block: (header, local, bound operand)}): counters that go up by one
    in every round of a loop, and the switches that leave a loop when its counter reaches a bound"""
    c = body._cache.get("counting")
    if c is not None:
        return c
    ind, cg = {}, {}
    ev = Eval(P, body, None, 0)
    whole = ev.defs()[0]
    succ = pruned_succ(P, body)
    dom = None

    def stmt(l, L=None):
        ds = [x for x in whole.get(l, []) if L is None or x[0] in L]
        if len(ds) != 1 or ds[0][1] >= len(body.blocks[ds[0][0]]["s"]):
            return None, None
        return ds[0], body.blocks[ds[0][0]]["s"][ds[0][1]][1]
    for h, L in loops(P, body).items():
        for l, ds in whole.items():
            if body.lty(l).s not in ("usize", "u64", "i64", "u32", "i32", "u16", "u8", "isize") or sum(x[0] in L for x in ds) != 1 or len(ds) < 2:
                continue
            d, rv = stmt(l, L)
            if rv is None:
                continue
            if rv[0] == "use" and isinstance(rv[1], list) and len(rv[1]) == 2:
                _, rv = stmt(rv[1][0])
            if not rv or rv[0] != "bin" or not rv[1].startswith("Add"):
                continue
            ops = [o[0] if isinstance(o, list) and len(o) == 1 else o for o in rv[2:4]]
            k = [o for o in ops if isinstance(o, dict) and str(o.get("v", "")).split("_")[0] == "1"]
            v = []
            for o in ops:
                while not isinstance(o, dict) and not isinstance(o, list) and o != l:
                    dd, r2 = stmt(o)
                    o = r2[1][0] if r2 and r2[0] == "use" and isinstance(r2[1], list) and len(r2[1]) == 1 else {}
                v.append(o)
            if not k or l not in v:
                continue
            if dom is None:
                from terms import dominators
                dom = dominators(body)
            if all(d[0] in dom[a] for a in L if h in succ.get(a, [])):
                ind[l] = (h, L, d[0])
        for x in L:
            t = body.term(x)
            if t[0] != "switch" or not any(s not in L for s in succ.get(x, [])):
                continue
            o = t[1]
            dd, rv = stmt(o[0]) if isinstance(o, list) and len(o) == 1 else (None, None)
            if not rv or rv[0] != "bin" or rv[1] not in ("Lt", "Gt", "Le", "Ge", "Ne"):
                continue
            sides = []
            for q in rv[2:4]:
                r = q[0] if isinstance(q, list) and len(q) == 1 else None
                while r is not None and not (r in ind and ind[r][0] == h):
                    d3, r2 = stmt(r)
                    r = r2[1][0] if r2 and r2[0] == "use" and isinstance(r2[1], list) and len(r2[1]) == 1 else None
                sides.append(r)
            if (sides[0] is None) == (sides[1] is None):
                continue
            i = 0 if sides[0] is not None else 1
            op = rv[1] if i == 0 else {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Ne": "Ne"}[rv[1]]
            stay = [s for s in succ.get(x, []) if s in L]
            tv = {str(v): s for v, s in t[2]}
            false = tv.get("0", t[3])
            want = {"Lt": True, "Ne": True, "Ge": False}.get(op)
            if want is None or len(stay) != 1 or (stay[0] != false) != want:
                continue
            # the counter is compared before it is increased
            cg[x] = (h, sides[i], (dd[0], dd[1], rv[3 - i]))
    body._cache["counting"] = (ind, cg)
    return ind, cg


def isnext(ev, x):
    return x in counting(ev.P, ev.body)[1] or is_loop_guard(ev, x) == "next"


def norange(t):
    """what a loop or iterator ranges over: `0..xs.len()` counts as xs"""
    t = base(t)
    if t[0] == "agg" and t[2] in ("Range", "RangeInclusive"):
        fs = dict(t[3])
        if t[2] == "Range" and str(fs.get("start", (0, 0))[1]).startswith("0") and fs.get("end", ("", "", ""))[0] == "call" and fs["end"][2] == "len":
            return fs["end"][3][0]
    return t


BOOLRET = re.compile(r"^(bool|(core|std)::result::Result<bool, .*)$")
VISITED = None      # development aid: blocks reached by any table, per body


class TooMany(Exception):
    pass


MUT = {"push", "insert", "extend", "clear", "resize", "fill", "push_str", "append", "truncate", "retain", "push_back", "push_front",
       "pop_front", "pop_back", "pop", "remove", "extend_from_slice", "entry", "swap", "sort", "reverse", "swap_remove",
       "sort_by", "sort_by_key", "sort_by_cached_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "rotate_left", "rotate_right",
       "dedup", "dedup_by", "dedup_by_key", "drain", "split_off", "retain_mut", "shift_remove", "make_contiguous", "copy_from_slice", "clone_from_slice"}
REPLACE = re.compile(r"^(?:core|std)::mem::(take|replace|swap)\b|^(?:core|std)::option::Option::<.*>::(take|replace|insert|get_or_insert)$|^(?:core|std)::option::Option::(take|replace|insert|get_or_insert)\b")


def table(P, body, env=None, depth=4, opaque=None, descend=None, acts=None, stack=(), limit=400, budget=None, mem=None, known=None, prior=(), strict=False, gat=None):
    """list of Row; `acts(callee)` selects further calls to record as actions (std collection mutators always are)"""
    succ = pruned_succ(P, body)
    rows = []
    budget = budget if budget is not None else [6000]
    ev0 = PathEval(P, body, env, depth, opaque, stack)
    ev0.mem, ev0.known, ev0.acts, ev0.acts_of = dict(mem or {}), dict(known or {}), prior, acts
    ev0.gat = dict(gat or {})
    LP = loops(P, body)
    NX = {h for h, L in LP.items() if any(body.term(x)[0] == "switch" and isnext(ev0, x) and not any(x in M and len(M) < len(L) for M in LP.values()) for x in L)}
    work = [(0, ev0, ())]
    while work:
        b, ev, conds = work.pop()
        budget[0] -= 1
        if budget[0] < 0 or len(rows) > limit:
            raise TooMany(body.p)
        if b in ev.pos:
            # second arrival at a loop header: one generic iteration has been followed, leave the loop
            L = LP.get(b)
            if L is not None and ev.path and ev.path[-1] in L:
                for x in sorted(L):
                    if x in ev.pos and body.term(x)[0] == "switch" and isnext(ev, x) or (b not in NX and x in ev.pos):
                        fl = filters(ev, x) if isnext(ev, x) else ()
                        for s in succ.get(x, []):
                            if s not in L and s not in ev.pos:
                                e2 = ev.fork()
                                e2.fcond = tuple(c for c in ev.fcond if c not in fl)
                                e2.leaving = True
                                e2.exited = ev.exited | {b}
                                e2.loopx = ev.loopx[:-1]
                                work.append((s, e2, conds))
            continue
        leaving, ev.leaving = ev.leaving, False
        if ev.path and not leaving:
            for h, L in LP.items():
                if ev.path[-1] in L and b not in L and h in NX and not (body.term(ev.path[-1])[0] == "switch" and isnext(ev, ev.path[-1])):
                    ev.acts = ev.acts + (((), ("call", "", "leave loop early", ())),)
                    ev.loopx = ev.loopx[:-1]
        ev.pos[b] = len(ev.path)
        ev.path.append(b)
        if VISITED is not None:
            VISITED.setdefault(body.h, set()).add(b)
        bb = body.blocks[b]
        for i, st in enumerate(bb["s"]):
            pl = st[0]
            if len(pl) == 1:
                if ev.mem and st[1][0] == "use":      # a copy taken now keeps the value the place has now
                    ev.def_term(pl[0], (b, i))
                continue
            if owned(body, pl):
                continue
            for t in alts(ev.target(pl, b, i)):
                if isplace(t):
                    ev.write(t, ev.rvalue(st[1], b, i), body.loc(b))
        t = bb["t"]
        if t[0] == "return":
            v = ev.place([0], b, 1 << 29) if 0 in ev.defs()[1] else ev.local(0, b, 1 << 29)
            if v == FAILED:
                continue
            if UNIT.match(body.lty(0).s):
                v = ("tuple", ())
            if v in (TRUE, FALSE) and "bool" not in body.lty(0).s:
                v = ("c", "1" if v == TRUE else "0", "u64")
            if isbool(v) or BOOLRET.match(body.lty(0).s) and v not in (TRUE, FALSE) and v[0] in ("call", "op", "arg", "field", "elem", "loc"):
                yes, no = (TRUE, FALSE) if "bool" in body.lty(0).s else (("c", "1", "u64"), ("c", "0", "u64"))
                while v[0] == "cast":
                    v = v[1]
                for lab, x in (("true", yes), ("false", no)):
                    for nc in boolalts(conds, v, lab):
                        rows.append(Row(nc, x, ev.mem, ev.acts, body.loc(b), ev.known, ev.gat, ev.locs))
                continue
            rows.append(Row(conds, v, ev.mem, ev.acts, body.loc(b), ev.known, ev.gat, ev.locs))
            continue
        ss = succ.get(b, [])
        if t[0] == "switch":
            subj, labels, kind = switch_info(ev, b)
            lg = "next" if isnext(ev, b) else is_loop_guard(ev, b)
            if lg == "next" and not any(b in L for L in LP.values()):
                lg = None
            if kind != "int":
                labels = {x: y - {"_"} for x, y in labels.items()}
                ss = [x for x in ss if labels.get(x)] or ss
            if lg == "try" and len(ss) > 1:      # `?` on an Option: a value, not an error
                lg, cb = None, {"Continue": "Some", "Break": "None"}
                labels = {x: {cb.get(z, z) for z in y} for x, y in labels.items()}
            allv = frozenset().union(*labels.values())
            vals = decide(ev, subj, kind)
            if vals is not None and kind == "discr":
                st = switch_type(ev, b)
                if vals == {"None"} and st == "Result":
                    vals = {"Ok"}
                elif vals and not vals & {"Ok", "Some", "Err", "None"} and "Continue" in allv:
                    vals = None
                elif vals and not vals & allv and "_" not in allv and "Continue" not in allv:
                    vals = None
            if vals is not None and "Continue" in allv | {x for y in labels.values() for x in y}:
                vals = {"Continue" if x in ("Ok", "Some") else "Break" if x in ("Err", "None") else x for x in vals}
            fl = ()
            if lg == "next":
                fl = filters(ev, b)
            for s in ss:
                lab = frozenset(labels.get(s, ()))
                if lg == "next":
                    Ls = [L for L in LP.values() if b in L]
                    if Ls and s not in min(Ls, key=len):
                        continue
                    e2 = ev.fork() if len(ss) > 1 else ev
                    if s in min(Ls, key=len):
                        x = ev.over(min((h for h, L in LP.items() if b in L), key=lambda h: len(LP[h])))
                        e2.loopx = ev.loopx + (x,)
                    e2.fcond = ev.fcond + tuple(c for c in fl if c not in ev.fcond)
                    work.append((s, e2, conds))
                    continue
                if vals is not None and not (lab & vals) and not ("_" in lab and not (vals & allv)):
                    continue
                nc = conds
                if ev.each and len(ss) == 1 and len(body.blocks[b]["t"][2]) + 1 > 1:
                    o = combsite(ev, b)
                    if not strict and o in ev.each and errside(P, body, b, s):
                        nc = tuple(c for c in nc if c not in ev.each[o])
                if lg is None and vals is None and not dropflag(ev, b):
                    if len(ss) > 1 or (strict and (lab != allv or kind == "int" and errside(P, body, b, s)) and refuses(P, body, b, ss)):
                        if kind == "bool" and lab <= BOOL and len(lab) == 1:
                            for nc in boolalts(conds, subj, next(iter(lab))):
                                work.append((s, ev.fork(), nc))
                            continue
                        cs = [(kind, subj, lab, allv)]
                        if kind == "int" and len(t[2]) <= 2 and len(lab) == 1 and INT.match(body.tys[t[4]].s):
                            ty = body.tys[t[4]].s      # a match on few numbers is as good as comparing with them
                            cs = [("bool", ("op", "Eq", (("c", v, ty), subj)), frozenset({"true" if v in lab else "false"}), BOOL)
                                  for v, s2 in t[2] if v in lab or "_" in lab and (s2 in ss or strict and refuses(P, body, b, [x for x in body.succ(b) if x != s2]))]
                        nc = conds
                        for c in cs:
                            nc = addcond(nc, c) if nc is not None else None
                        if nc is None:
                            continue
                work.append((s, ev.fork() if len(ss) > 1 else ev, nc))
            continue
        if t[0] == "call" and t[4] is not None:
            f = t[1]
            tb = P.body_of(f) if "ptr" not in f else None
            rec = acts is not None and acts(f)
            if cname(f) == "next" and tb is None and len(t[2]) == 1:
                x = base(ev.args_of(b)[0])
                if x[0] == "array" and 0 < len(x[1]) <= 6 and b not in ev.forced:
                    for it in x[1]:
                        e2 = ev.fork()
                        e2.forced[b] = it
                        for s in ss:
                            work.append((s, e2.fork() if len(ss) > 1 else e2, conds))
                    continue
            if not rec and tb is None and depth > 0 and cname(f) in COMB:
                br = combinator(ev, cname(f), f.get("p", ""), ev.args_of(b))
                if br is not None:
                    done = True
                    nw = []
                    for (extra, val, clo, cargs, kn, act, wrap) in br:
                        nc = conds
                        if extra is not None:
                            nc = addcond(nc, extra)
                        if nc is None:
                            continue
                        rs = None
                        if clo is not None and clo[0] == "closure" and clo[1] in P.by_hash and P.by_hash[clo[1]].h not in stack:
                            cb = P.by_hash[clo[1]]
                            if cb.nargs == 1 + len(cargs):
                                try:
                                    rs = table(P, cb, [clo] + list(cargs), depth - 1, opaque, descend, acts, stack + (body.h,), limit, budget, ev.mem, ev.known, ev.acts, strict, ev.gat)
                                except TooMany:
                                    rs = None
                            if rs is None:
                                done = False
                                break
                        if rs is None:
                            v = ev.apply(clo, list(cargs)) if clo is not None else val
                            rs = [Row((), v, ev.mem, ev.acts, "", {}, ev.gat, {})]
                        for r in rs:
                            c2 = nc
                            for c in r.conds:
                                c2 = addcond(c2, c) if c2 is not None else None
                            if c2 is None:
                                continue
                            for c3, v in wrap(r.value, c2):
                                e2 = ev.fork()
                                e2.mem, e2.acts, e2.gat = dict(r.mem), r.acts, dict(r.gat)
                                ev0.locs.update(r.locs)
                                if act(v):
                                    e2.acts = e2.acts + (((), ("call", "", "leave loop early", ())),)
                                e2.known.update(r.known)
                                if kn(v):
                                    e2.known[v] = kn(v)
                                e2.forced[b] = v
                                if cname(f) in ("any", "all"):
                                    e2.each = {**e2.each, b: c3[len(nc):]}
                                nw.append((e2, c3))
                    if done:
                        for e2, c3 in nw:
                            for s in ss:
                                work.append((s, e2.fork() if len(ss) > 1 else e2, c3))
                        continue
            if not rec and tb is None and cname(f) in ("collect", "collect_vec") and is_std_iter(f) and len(t[2]) == 1:
                fx = []
                v = ev.listof(ev.args_of(b)[0], fx)
                ev.forced[b] = v
                ev.acts = ev.acts + tuple((ev.fcond + c, a) for c, a in fx)
            if not rec and tb is None and cname(f) == "extend" and len(t[2]) == 2 and is_mut(body, t):
                fx = []
                a = ev.args_of(b)
                v = ev.listof(a[1], fx)
                tgt = ev.env_target(t[2][0], b) or a[0]
                if v[0] == "list" and "String" not in body.lty(t[2][0][0]).s:
                    mp = "Map<" in body.lty(t[2][0][0]).s
                    for it in v[1:]:
                        act = ("call", "", "insert", (tgt,) + it[1][1]) if mp and it[1][0] == "tuple" else ("call", "", "insert" if "Set<" in body.lty(t[2][0][0]).s else "push", (tgt, it[1]))
                        ev.locs[act] = body.loc(b)
                        fx.append((tuple(("bool",) + c[1:] for c in it[2:]), act))
                    ev.acts = ev.acts + tuple((ev.fcond + c, a) for c, a in fx)
                    for s in ss:
                        work.append((s, ev.fork() if len(ss) > 1 else ev, conds))
                    continue
            if not rec and tb is None and cname(f) in ("for_each", "try_for_each") and len(t[2]) == 2:
                a = ev.args_of(b)
                cl = a[1]
                cb = P.by_hash.get(cl[1]) if cl[0] == "closure" else None
                if cb is not None and cb.nargs == 2 and depth > 0:
                    try:
                        sub = table(P, cb, [cl, ev.elem(a[0])], depth - 1, opaque, descend, acts, stack + (body.h,), limit, budget, ev.mem, ev.known, ev.acts, strict, ev.gat)
                    except TooMany:
                        sub = None
                    if sub:
                        e2 = ev.fork()
                        e2.fcond = ev.fcond + tuple(filt(ev, a[0]))
                        sub = join([Row(r.conds, ("tuple", ()), r.mem, r.acts, r.loc, r.known, r.gat, r.locs) for r in sub], e2, True)
                        r = sub[0]
                        e2 = ev.fork()
                        e2.mem, e2.acts, e2.gat = dict(r.mem), r.acts, dict(r.gat)
                        e2.forced[b] = r.value
                        ev0.locs.update(r.locs)
                        for s in ss:
                            work.append((s, e2.fork() if len(ss) > 1 else e2, conds))
                        continue
            fcall = None
            if not rec and tb is None and "ptr" not in f and f.get("tr", "").startswith("core::ops::function::") and t[2]:
                a = ev.args_of(b)
                fa = a[1] if len(a) > 1 else ("tuple", ())
                fargs = list(fa[1]) if fa[0] == "tuple" else [fa]
                cb = P.by_hash.get(a[0][1]) if a[0][0] == "closure" else P.by_hash.get(a[0][2] or "") if a[0][0] == "fn" else None
                fcall = (a[0], fargs)
                if cb is not None and cb.nargs == len(fargs) + (a[0][0] == "closure"):
                    tb, fargs = cb, ([a[0]] if a[0][0] == "closure" else []) + fargs
                else:
                    fargs = None
            else:
                fargs = None
            if not rec and tb is not None and depth > 0 and tb.h not in stack and tb.h != body.h and (fargs is not None or len(t[2]) == tb.nargs) and len(tb.blocks) < 300 \
                    and not (opaque and opaque(tb)) and not (tb.expansion and tb.derived) and (descend is None or descend(tb)):
                try:
                    sub = table(P, tb, lend(ev, tb, fargs if fargs is not None else ev.args_of(b)), depth - 1, opaque, descend, acts, stack + (body.h,), limit, budget, ev.mem, ev.known, ev.acts, strict, ev.gat)
                except TooMany:
                    sub = None
                if sub and (len(sub) > 1 or ev.fcond) and not (strict and not stack and len(sub) <= 12):
                    sub = join(sub, ev)
                if sub:
                    for r in sub:
                        nc = conds
                        for c in r.conds:
                            nc = addcond(nc, c) if nc is not None else None
                        if nc is None:
                            continue
                        e2 = ev.fork()
                        e2.mem, e2.acts, e2.gat = dict(r.mem), r.acts, dict(r.gat)
                        e2.forced[b] = r.value
                        ev0.locs.update(r.locs)
                        for k, v in r.known.items():
                            e2.known[k] = v
                        for s in ss:
                            work.append((s, e2.fork() if len(ss) > 1 else e2, nc))
                    continue
            if len(t[3]) > 1 and not owned(body, t[3]):
                tt = ev.target(t[3], b, len(bb["s"]))
                if isplace(tt):
                    ev.write(tt, ev.call_term(b), body.loc(b))
            elif tb is None and REPLACE.match(f.get("p", "")) and ev.env_target(t[2][0], b) is not None and isplace(ev.env_target(t[2][0], b)) \
                    and (cname(f) != "swap" or ev.env_target(t[2][1], b) is not None):
                a = ev.args_of(b)
                tt, nm = ev.env_target(t[2][0], b), cname(f)
                some = "option" in f.get("p", "")
                new = ("none",) if some and nm == "take" else ("call", "", "default", ()) if nm == "take" else a[1]
                if nm == "swap":
                    ev.write(ev.env_target(t[2][1], b), a[0], body.loc(b))
                else:
                    ev.forced[b] = ("cast", a[0], "") if nm in ("take", "replace") else new
                ev.write(tt, new, body.loc(b))
            elif tb is None and f.get("tr", "").startswith("core::ops::arith::") and cname(f).endswith("_assign"):
                a = ev.args_of(b)
                op = {"add_assign": "Add", "sub_assign": "Sub", "mul_assign": "Mul", "div_assign": "Div"}[cname(f)]
                tt = ev.env_target(t[2][0], b)
                if tt is not None:
                    ev.write(tt, ("op", op, (a[0], a[1])), body.loc(b))
            elif fcall is not None and fcall[0][0] not in ("closure", "fn") and getattr(acts, "auto", False) and body.lty(t[3][0]).s == "()":
                act = ("call", "", "call", (fcall[0],) + tuple(fcall[1]))
                ev.locs[act] = body.loc(b)
                per = tuple(("bool", ("call", "", "for each", (x,)), frozenset({"true"}), BOOL) for x in ev.loopx if x is not None and not mentions(act, x))
                ev.acts = ev.acts + ((ev.fcond + per, act),)
            elif rec or (tb is None and cname(f) in MUT and is_mut(body, t)) or (getattr(acts, "auto", False) and autoact(P, body, t, f)):
                a = ev.args_of(b)
                nm = cname(f)
                tgt = ev.env_target(t[2][0], b) if a else None
                if nm == "fill" and tgt is not None and not rec:
                    ev.write(("elem", tgt), a[1], body.loc(b))
                else:
                    act = ("call", "", nm, (tgt if tgt is not None else a[0],) + tuple(a[1:]) + (ev.generics(f) if tb is not None else ())) if a else ("call", "", nm, ())
                    if nm == "clear" and not rec:
                        ev.acts = tuple(x for x in ev.acts if not (x[1][3] and x[1][3][0] == act[3][0]))
                    ev.locs[act] = body.loc(b)
                    k = sum(x[1] == act for x in ev.acts)
                    if k and b not in ev.forced and len(t[3]) == 1 and body.lty(t[3][0]).s not in ("()", "!"):
                        v = ev.call_term(b)
                        if v[0] == "call":
                            ev.forced[b] = ("call", v[1], v[2] + "'" * k, v[3])
                    if getattr(acts, "auto", False) and a and chained(body, t):
                        ev.forced[b] = a[0]
                    per = tuple(("bool", ("call", "", "for each", (x,)), frozenset({"true"}), BOOL) for x in ev.loopx if x is not None and not mentions(act, x))
                    ev.acts = ev.acts + ((ev.fcond + per, act),)
        for s in ss:
            work.append((s, ev.fork() if len(ss) > 1 else ev, conds))
    return [r for r in rows if r.value[0] != "errv"]


COMB = {"map_or", "map_or_else", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "map", "and_then", "any", "all", "find", "position", "then", "then_some", "is_some_and", "is_none_or", "find_map", "filter", "or", "or_else", "ok_or", "ok_or_else"}
FAILED = ("call", "", "Err", ())
OPTV = frozenset({"Some", "None"})
RESV = frozenset({"Ok", "Err"})


def combsite(ev, b):
    """the block of the call whose result (or its negation) a switch tests"""
    o = ev.body.blocks[b]["t"][1]
    for _ in range(6):
        if not (isinstance(o, list) and len(o) == 1):
            return None
        ds = ev.defs()[0].get(o[0], [])
        if len(ds) != 1:
            return None
        db, di = ds[0]
        ss = ev.body.blocks[db]["s"]
        if di >= len(ss):
            return db
        rv = ss[di][1]
        o = rv[1] if rv[0] == "use" else rv[2] if rv[0] == "un" and rv[1] == "Not" else None
    return None


def errside(P, body, b, s):
    """do all other outcomes of the test at b only lead to errors"""
    t = body.term(b)
    return any(x != s for x in [y for _, y in t[2]] + [t[3]])


def refuses(P, body, b, ss):
    """does an outcome of the test at b return an error (rather than panic)"""
    r = body._cache.get("returns")
    if r is None:
        r, st = set(), []
        for x, bb in enumerate(body.blocks):
            if bb and bb["t"][0] == "return":
                r.add(x)
                st.append(x)
        while st:
            for p in body.pred(st.pop()):
                if p not in r:
                    r.add(p)
                    st.append(p)
        body._cache["returns"] = r
    return any(x in r for x in body.succ(b) if x not in ss)


def combinator(ev, n, path, a):
    """alternatives (condition, value, closure, closure args, known label, leaves the loop early, wrap) of a std combinator,
    so that combinator chains and the matches or loops they stand for have the same table"""
    opt, res = "option::Option" in path, "result::Result" in path
    plain = lambda v, c: [(c, v)]
    no = lambda v: None
    if (opt or res) and a and n not in ("any", "all", "find", "position"):
        s = a[0]
        A = OPTV if opt else RESV
        P_, N_ = ("Some", "None") if opt else ("Ok", "Err")
        d = decide(ev, s, "discr")
        cs = [(x, ("discr", s, frozenset({x}), A)) for x in (P_, N_)]
        cs = [(x, None if d is not None else c) for x, c in cs if d is None or x in d]
        some = lambda v: "Some"
        out = []
        for x, c in cs:
            e = () if opt else (("errof", s),)
            if n in ("map", "and_then"):
                if res or len(a) != 2:
                    return None
                out.append((c, None, a[1], (s,), (some if n == "map" else no), no, plain) if x == P_ else (c, NONE, None, (), no, no, plain))
            elif n in ("unwrap_or", "unwrap_or_else", "unwrap_or_default"):
                if x == P_:
                    out.append((c, s, None, (), no, no, plain))
                elif n == "unwrap_or":
                    out.append((c, a[1], None, (), no, no, plain))
                elif n == "unwrap_or_default":
                    out.append((c, ("call", "", "default", ()), None, (), no, no, plain))
                else:
                    out.append((c, None, a[1], e, no, no, plain))
            elif n == "map_or":
                out.append((c, None, a[2], (s,), no, no, plain) if x == P_ else (c, a[1], None, (), no, no, plain))
            elif n == "map_or_else":
                out.append((c, None, a[2], (s,), no, no, plain) if x == P_ else (c, None, a[1], e, no, no, plain))
            elif n == "filter" and opt:
                def keep(v, c, s=s):
                    return [(x, s) for x in boolalts(c, v, "true")] + [(x, NONE) for x in boolalts(c, v, "false")]
                out.append((c, None, a[1], (s,), lambda v: "Some" if v != NONE else None, no, keep) if x == P_ else (c, NONE, None, (), no, no, plain))
            elif n in ("or", "or_else") and opt:
                out.append((c, s, None, (), some, no, plain) if x == P_ else (c, a[1], None, (), no, no, plain) if n == "or" else (c, None, a[1], (), no, no, plain))
            elif n in ("ok_or", "ok_or_else") and opt:
                if d is None or x == P_ and N_ not in d:
                    return None
                if x == N_:
                    out.append((c, FAILED, None, (), lambda v: "Err", no, plain))
                else:
                    out.append((c, s, None, (), no, no, plain))
            elif n == "is_some_and":
                out.append((c, None, a[1], (s,), no, no, plain) if x == P_ else (c, FALSE, None, (), no, no, plain))
            elif n == "is_none_or":
                out.append((c, None, a[1], (s,), no, no, plain) if x == P_ else (c, TRUE, None, (), no, no, plain))
            else:
                return None
        return out
    if n in ("then", "then_some") and "bool" in path and len(a) == 2:
        s = a[0]
        if s[0] == "c":
            return [(None,) + ((None, a[1]) if n == "then" else (a[1], None)) + ((), lambda v: "Some", no, plain)] if s == TRUE else [(None, NONE, None, (), no, no, plain)]
        return [(("bool", s, frozenset({"true"}), BOOL),) + ((None, a[1]) if n == "then" else (a[1], None)) + ((), lambda v: "Some", no, plain),
                (("bool", s, frozenset({"false"}), BOOL), NONE, None, (), no, no, plain)]
    if n in ("any", "all", "find", "position", "find_map") and len(a) == 2 and ("iter" in path or "rayon" in path):
        e = ev.elem(a[0])
        fl = filt(ev, a[0])
        if fl:
            return None

        def hit(v, c):
            """rows of the predicate on a generic element: stop here, or go on"""
            ends, on = {"any": (TRUE, FALSE), "all": (FALSE, TRUE), "find": (e, NONE), "position": (("idx", base(a[0])), NONE), "find_map": (v, NONE)}[n]
            out = []
            if n == "find_map":
                cc, A = [("discr", v, frozenset({x}), OPTV) for x in ("Some", "None")], None
                d = decide(ev, v, "discr")
                if v == NONE:
                    return [(c, on)]
            else:
                cc = [("bool", v, frozenset({x}), BOOL) for x in ("true", "false")]
                d = decide(ev, v, "bool")
                if n == "all":
                    cc = cc[::-1]
            for i, x in enumerate(cc):
                lab = next(iter(x[2]))
                if d is not None:
                    if lab in d:
                        out.append((c, ends if i == 0 else on))
                    continue
                c2 = addcond(c, x)
                if c2 is not None:
                    out.append((c2, ends if i == 0 else on))
            return out
        first = {"any": lambda v: v == TRUE, "all": lambda v: v == FALSE}.get(n, lambda v: v != NONE)
        kn = (lambda v: "Some" if v != NONE else None) if n in ("find", "position", "find_map") else no
        return [(None, None, a[1], (e,), kn, first, hit)]
    return None


def base(it):
    while it[0] == "call" and it[2] in ("iter", "into_iter", "enumerate", "by_ref") and it[3]:
        it = it[3][0]
    return it


TRUE, FALSE = ("c", "true", "bool"), ("c", "false", "bool")


def join(sub, ev, all_=False):
    """rows of a helper that return the same value become one row whose effects carry their own conditions"""
    by = {}
    for r in sub:
        by.setdefault(r.value, []).append(r)
    out = []
    for v, rs in by.items():
        if not all_ and (len(rs) == 1 and not ev.fcond) or (len(by) > 1 and all(not r.mem and len(r.acts) == len(ev.acts) for r in rs)):
            out += rs
            continue
        if len(by) > 1:
            out += rs
            continue
        mem, gat, acts = {}, {}, list(ev.acts)
        known = dict(rs[0].known)
        for r in rs[1:]:
            known = {k: x for k, x in known.items() if r.known.get(k) == x}
        places = []
        for r in rs:
            for t in r.mem:
                if t not in places:
                    places.append(t)
        for t in places:
            vals, gs = [], []
            for r in rs:
                if t in r.mem:
                    vals.append(r.mem[t])
                    if t in r.gat:
                        gs += [(ev.fcond + r.conds + c, x) for c, x in r.gat[t]] if r.gat[t] is not ev.gat.get(t) else [(c, x) for c, x in r.gat[t]]
                    elif r.mem[t] == ev.mem.get(t):
                        gs.append(((), r.mem[t]))
                    else:
                        gs.append((ev.fcond + r.conds, r.mem[t]))
                else:
                    vals.append(ev.mem.get(t, t))
            mem[t] = phi(vals)
            u = []
            for g in gs:
                if g not in u:
                    u.append(g)
            if len(u) == 1 and not u[0][0] and t not in ev.gat:
                continue
            gat[t] = tuple(u)
        n = len(ev.acts)
        for r in rs:
            for c, a in r.acts[n:]:
                if (ev.fcond + r.conds + c, a) not in acts:
                    acts.append((ev.fcond + r.conds + c, a))
        out.append(Row((), v, mem, tuple(acts), rs[0].loc, known, gat, rs[0].locs))
    return out


def filters(ev, sw):
    """conditions an iterator chain puts on the elements it yields"""
    if sw in counting(ev.P, ev.body)[1]:
        return ()
    it = iterof(ev, sw)
    return tuple(filt(ev, it)) if it is not None else ()


ODD = {"skip", "take", "step_by", "take_while", "skip_while", "chunks", "windows", "cycle", "map_while"}


def filt(ev, t):
    out, st = [], [t]
    while st:
        x = st.pop()
        if x[0] == "list" and len(x) == 2:
            out += [("bool",) + c[1:] for c in x[1][2:]]
        if x[0] != "call" or not x[3]:
            continue
        n, a = x[2], x[3]
        if n == "filter" and len(a) == 2:
            out.append(("bool", ev.apply(a[1], [ev.elem(a[0])]), frozenset({"true"}), BOOL))
        elif n == "filter_map" and len(a) == 2:
            out.append(("discr", ev.apply(a[1], [ev.elem(a[0])]), frozenset({"Some"}), frozenset({"Some", "None"})))
        elif n in ODD:
            out.append(("bool", ("call", "", n, a[1:]), frozenset({"true"}), BOOL))
        st.append(a[0])
        if n in ("zip", "chain") and len(a) > 1:
            st.append(a[1])
    return out


def is_mut(body, t):
    o = t[2][0] if t[2] else None
    return isinstance(o, list) and len(o) == 1 and body.lty(o[0]).s.startswith("&mut")


QUIET = re.compile(r"^(<.* as )?(tracing|log|core::fmt|alloc::fmt|std::fmt|core::mem|std::time|std::io::stdio|core::iter|core::ops::function|core::ops::deref|core::convert|core::ops::index|core::panicking|core::hash|alloc::slice|core::slice|core::option|core::result|core::array|rayon)")
FFI = re.compile(r"^(highs_sys|coin_or_sys|libc|ocl|ocl_core)\b")


def autoact(P, body, t, f):
    """does this call act on something: it takes a mutable borrow, returns nothing, or leaves Rust"""
    p = f.get("p", "")
    if "ptr" in f or QUIET.match(p) or cname(f) in ("drop", "next", "clone_from"):
        return False
    if FFI.match(p):
        return True
    d = body.lty(t[3][0]).s
    if chained(body, t):
        return True
    if "&mut" in d or d == "!":
        return False
    if d == "()" or d.startswith(("core::result::Result<(),", "std::result::Result<(),")):
        return True
    if any(isinstance(o, list) and len(o) == 1 and body.lty(o[0]).s.startswith("&mut") for o in t[2]):
        return True
    return any(x.h in P.effectful() and not makes(x) for x in P.targets(f)) and unused(body, t[3][0])


THROUGH = {"unwrap", "expect", "branch", "context", "with_context", "map_err", "from_residual", "ok", "drop", "from", "into"}


def unused(body, l):
    """nothing but its success or failure is made of the value in this local"""
    S, todo = {l}, [l]
    uses = body._cache.get("uses")
    if uses is None:
        uses = body._cache["uses"] = {}
        for bb in body.blocks:
            if not bb:
                continue
            for st in bb["s"]:
                for o in locs(st[1]):
                    if st[1][0] != "discr":
                        uses.setdefault(o, []).append((st[0], None))
            t = bb["t"]
            if t[0] == "call":
                for a in t[2]:
                    for o in locs(a):
                        uses.setdefault(o, []).append((t[3], t[1]))
    while todo:
        for d, f in uses.get(todo.pop(), []):
            if f is not None and ("ptr" in f or cname(f) not in THROUGH):
                return False
            if d[0] == 0:
                if f is not None and cname(f) == "from_residual" or UNIT.match(body.lty(0).s):
                    continue
                return False
            if len(d) > 1:
                return False
            if d[0] not in S:
                S.add(d[0])
                todo.append(d[0])
    return True


def locs(o):
    """the locals an operand or right-hand side reads"""
    if isinstance(o, list):
        if o and isinstance(o[0], int) and all(not isinstance(x, (int, dict)) for x in o[1:]):
            yield o[0]
            return
        for x in o:
            yield from locs(x)


def makes(b):
    """a constructor"""
    return b.self_ty is not None and b.self_ty.d != "" and any(t.d == b.self_ty.d for t in deep(b.lty(0)))


def deep(t):
    yield t
    for a in t.args:
        yield from deep(a)


def chained(body, t):
    """a builder-style call that hands its receiver back"""
    d, o = body.lty(t[3][0]).s, t[2][0] if t[2] else None
    return d.startswith("&mut ") and isinstance(o, list) and len(o) == 1 and body.lty(o[0]).s == d


class Auto:
    """record every call that acts on something, and those `more` selects"""
    auto = True

    def __init__(self, more=None):
        self.more = more

    def __call__(self, f):
        return self.more is not None and self.more(f)


def switch_type(ev, b):
    """Result or Option if the enum a switch looks at is one, or the ControlFlow of a `?` on one"""
    op = ev.body.blocks[b]["t"][1]
    if isinstance(op, list) and len(op) == 1:
        for (db, di) in ev.defs()[0].get(op[0], []):
            ss = ev.body.blocks[db]["s"]
            if di < len(ss) and ss[di][1][0] == "discr":
                t = ev.body.tys[ss[di][1][2]]
                if t.d.endswith("ControlFlow") and t.args:
                    t = t.args[0]
                return t.d.split("::")[-1]
    return ""


def decide(ev, subj, kind):
    """the labels a switch subject is known to have, or None"""
    t = subj
    if kind == "discr":
        if t == NONE:
            return {"None"}
        if t in ev.known:
            return {ev.known[t]}
        if t[0] == "errv":
            return {"Err"}
        if t[0] == "agg":
            return {t[2]}
        return None
    if t[0] == "c":
        v = str(t[1])
        return {v} if kind == "bool" else None
    return None


def addcond(conds, c):
    """conds and c, or None if they contradict each other"""
    k, l, a = _lit(c)
    for d in conds:
        k2, l2, a2 = _lit(d)
        if k2 == k and a2 & a and not l & l2:
            return None
    return conds + (c,)


_lits = {}


def _lit(c):
    r = _lits.get(c)
    if r is None:
        r = _lits[c] = litof(c[1], frozenset(c[2]), frozenset(c[3]))
    return r


def isbool(t):
    while t[0] == "cast":
        t = t[1]
    return t[0] == "op" and t[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne", "Not") or t[0] == "op" and t[1] in ("BitAnd", "BitOr") and all(isbool(x) for x in t[2])


def boolalts(conds, t, lab, d=0):
    """condition lists under which the boolean term has the value `lab`"""
    while t[0] == "op" and t[1] == "Not":
        t, lab = t[2][0], "false" if lab == "true" else "true"
    if t[0] == "c":
        return [conds] if str(t[1]) == lab else []
    if t[0] == "op" and t[1] in ("BitAnd", "BitOr") and len(t[2]) == 2 and d < 4:
        a, b = t[2]
        both = (t[1] == "BitAnd") == (lab == "true")
        ob = "false" if lab == "true" else "true"
        out = []
        if both:
            for c in boolalts(conds, a, lab, d + 1):
                out += boolalts(c, b, lab, d + 1)
        else:
            out += boolalts(conds, a, lab, d + 1)
            for c in boolalts(conds, a, ob, d + 1):
                out += boolalts(c, b, lab, d + 1)
        return out
    nc = addcond(conds, ("bool", t, frozenset({lab}), BOOL))
    return [nc] if nc is not None else []


def lits(conds):
    """conditions as {subject: (labels, all labels)}"""
    d = {}
    for c in conds:
        kind, subj, lab, allv = c
        t, lab = subj, frozenset(lab)
        s, l, a = litof(t, lab, frozenset(allv))
        if s in d and not d[s][1] & a:
            s = s + "?"
        if s in d:
            d[s] = (d[s][0] & l, d[s][1] | a)
        else:
            d[s] = (l, a)
    return {s: (l, a) for s, (l, a) in d.items() if not l >= a}


BOOL = frozenset({"true", "false"})


def intc(t):
    """the value of an integer constant"""
    if t[0] == "c" and re.match(r"^[ui](size|8|16|32|64|128)$", str(t[2])):
        v = str(t[1]).split("_")[0]
        if re.match(r"^-?\d+$", v):
            return int(v)
    return None


def litof(t, lab, allv):
    while True:
        if t[0] == "op" and t[1] == "Not" and lab <= BOOL:
            t, lab = t[2][0], frozenset("true" if x == "false" else "false" for x in lab)
            continue
        if t[0] == "op" and t[1] == "Ne" and lab <= BOOL:
            t, lab = ("op", "Eq", t[2]), frozenset("true" if x == "false" else "false" for x in lab)
            continue
        if t[0] == "call" and t[2] in ("is_some", "is_none", "is_ok", "is_err") and len(t[3]) == 1 and lab <= BOOL:
            pos, neg = ("Some", "None") if t[2] in ("is_some", "is_none") else ("Ok", "Err")
            if t[2] in ("is_none", "is_err"):
                pos, neg = neg, pos
            return canon(t[3][0]), frozenset({pos if x == "true" else neg for x in lab}), frozenset({pos, neg})
        if t[0] == "op" and t[1] == "Eq" and lab <= BOOL and len(t[2]) == 2:
            u = [x for x in t[2] if (x[0] == "agg" and not x[3]) or x == NONE]
            if len(u) == 1:
                o = [x for x in t[2] if x is not u[0]][0]
                v = u[0][2] if u[0][0] == "agg" else "None"
                return canon(o), (frozenset({v}) if lab == {"true"} else frozenset({"not " + v})), frozenset({v, "not " + v})
        if t[0] == "op" and t[1] in ("Gt", "Ge") and lab <= BOOL:
            t = ("op", {"Gt": "Lt", "Ge": "Le"}[t[1]], t[2][::-1])
            continue
        if t[0] == "op" and t[1] == "Le" and lab <= BOOL:      # a <= b  ==  !(b < a), up to NaN
            t, lab = ("op", "Lt", t[2][::-1]), frozenset("true" if x == "false" else "false" for x in lab)
            continue
        if t[0] == "call" and t[2] == "is_zero" and len(t[3]) == 1 and lab <= BOOL:
            t = ("op", "Eq", (t[3][0], ("c", "0", "f64")))
            continue
        if t[0] == "call" and t[2] == "is_empty" and len(t[3]) == 1 and lab <= BOOL:
            t = ("op", "Lt", (("call", "", "len", t[3]), ("c", "1", "usize")))
            continue
        if t[0] == "op" and t[1] == "Lt" and lab <= BOOL and len(t[2]) == 2:
            n = intc(t[2][0])
            if n is not None:                                   # n < x  ==  !(x < n+1)
                t, lab = ("op", "Lt", (t[2][1], ("c", str(n + 1), t[2][0][2]))), frozenset("true" if x == "false" else "false" for x in lab)
                continue
        if t[0] == "op" and t[1] == "Eq" and lab <= BOOL and len(t[2]) == 2:
            z = [x for x in t[2] if intc(x) == 0 and str(x[2]).startswith("u")]
            if len(z) == 1:
                o = t[2][0] if t[2][1] is z[0] else t[2][1]
                t = ("op", "Lt", (o, ("c", "1", z[0][2])))
                continue
        break
    if t[0] == "discr":
        t = t[1]
    return canon(t), lab, allv


def rowset(rows, key):
    """merged rows: set of (frozenset of literals, key(row)) where a literal is 'subject is a|b', 'subject', '!subject'"""
    by = {}
    for r in rows:
        by.setdefault(key(r), []).append(lits(r.conds))
    out = set()
    for k, cs in by.items():
        for c in merge(cs):
            out.add((frozenset(lit(s, l, a) for s, (l, a) in c.items()), k))
    return out


def lit(s, l, a):
    if a == BOOL:
        return s if l == {"true"} else "!" + s
    return f"{s} is {'|'.join(sorted(l))}"


def merge(cs):
    """minimises a disjunction of conjunctions: alternatives that differ in one literal are joined, implied ones dropped"""
    S = {frozenset(c.items()) for c in cs}
    if len(S) > 6000:
        raise TooMany("conditions")
    ch = True
    while ch:
        ch = False
        for s in sorted({k for c in S for k, _ in c}):
            g = {}
            out = set()
            for c in S:
                v = [x for k, x in c if k == s]
                if v:
                    g.setdefault(frozenset(x for x in c if x[0] != s), []).append(v[0])
                else:
                    out.add(c)
            for rest, vs in g.items():
                l, a = frozenset().union(*(v[0] for v in vs)), frozenset().union(*(v[1] for v in vs))
                ch |= len(vs) > 1
                out.add(rest if l >= a else rest | {(s, (l, a))})
            S = out
        L = sorted((dict(c) for c in S), key=lambda c: (len(c), sorted((k, sorted(v[0])) for k, v in c.items())))
        if len(L) > 1500:
            raise TooMany("conditions")
        keep = []
        for c in L:
            if any(covers(x, c) for x in keep):
                ch = True
            else:
                keep.append(c)
        S = {frozenset(c.items()) for c in keep}
    return keep


def covers(x, y):
    """every state satisfying y satisfies x"""
    return all(s in y and y[s][0] <= l for s, (l, a) in x.items())


def show_rows(rs):
    return "\n".join(sorted(f"  [{'; '.join(sorted(c))}] => {k}" for c, k in rs))
