"""Value-flow terms, guards and path queries over the extracted MIR.

A term describes where a value comes from: parameters, struct fields, constants, calls, operators. References,
copies, clones, `?`, `Some`/`Ok` wrappers and conversions are transparent. Helpers of the workspace are inlined
(up to a depth) so that extracting a helper, reordering statements or rewriting a loop leaves terms unchanged.
"""
import re
from facts import cname, cpath

IDENT = {
    "clone", "into", "as_ref", "as_mut", "borrow", "borrow_mut", "deref", "deref_mut", "to_owned", "to_string",
    "to_vec", "copied", "cloned", "as_deref", "as_deref_mut", "as_slice", "as_mut_slice", "unwrap", "expect", "ok_or",
    "ok_or_else", "map_err", "branch", "into_iter", "iter", "iter_mut", "as_str", "from_output", "by_ref", "transpose",
    "to_path_buf", "as_path", "into_boxed_slice", "into_inner", "get_ref", "unwrap_unchecked", "into_vec", "as_mut_ptr", "as_ptr",
    "cast", "par_iter", "par_iter_mut", "into_par_iter", "as_bytes", "into_boxed_str", "into_string", "unsize", "to_ascii_lowercase", "with_min_len", "with_max_len",
} - {"to_ascii_lowercase"}
STD = re.compile(r"^<?(core|alloc|std|rayon|hashbrown|indexmap|ndarray)\b")
CONT = {"Some", "Ok", "Continue"}
BAD = {"Err", "Break"}
NONE = ("none",)
OPS = {
    "add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "neg": "Neg", "lt": "Lt", "le": "Le", "gt": "Gt",
    "ge": "Ge", "eq": "Eq", "ne": "Ne", "not": "Not", "bitand": "BitAnd", "bitor": "BitOr",
}
ADAPT = {
    "rev", "skip", "take", "step_by", "filter", "take_while", "skip_while", "peekable", "fuse", "inspect", "by_ref", "collect",
    "collect_vec", "sorted", "chunks", "windows", "values", "values_mut", "into_values", "keys", "drain", "dedup", "iter", "iter_mut", "into_iter", "lines",
    "axis_iter", "outer_iter", "rows", "columns", "into_par_iter", "par_iter", "par_iter_mut", "cycle",
}

FREN = {}   # (type or variant, current field name) -> the name the specifications use


def is_std(callee):
    return bool(STD.match(callee.get("p", "")))


def show(t, d=0):
    """readable rendering of a term"""
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if d > 14:
        return "…"
    if k == "arg":
        return f"arg{t[1]}" if isinstance(t[1], int) else str(t[1])
    if k == "f":
        return f"{show(t[1], d+1)}.{t[3]}"
    if k == "c":
        return str(t[1])
    if k == "call":
        return f"{t[2]}({', '.join(show(a, d+1) for a in t[3])})"
    if k == "op":
        return f"{t[1]}({', '.join(show(a, d+1) for a in t[2])})"
    if k == "phi":
        return "{" + " | ".join(sorted(show(a, d + 1) for a in t[1])) + "}"
    if k == "agg":
        return f"{t[1].split('::')[-1]}::{t[2]}{{" + ", ".join(f"{n}: {show(a, d+1)}" for n, a in t[3]) + "}"
    if k in ("tuple", "array"):
        return "(" + ", ".join(show(a, d + 1) for a in t[1]) + ")"
    if k == "closure":
        return "|closure|"
    if k in ("elem", "idx", "discr", "err", "un"):
        return f"{k}({', '.join(show(a, d+1) for a in t[1:])})"
    if k == "v":
        return f"({show(t[1], d+1)} as {t[2]})"
    if k == "index":
        return f"{show(t[1], d+1)}[{show(t[2], d+1)}]"
    if k == "cast":
        return f"{show(t[1], d+1)}"
    if k == "fn":
        return t[1]
    return k


def phi(ts):
    s = set()
    for t in ts:
        if t[0] == "phi":
            s |= t[1]
        else:
            s.add(t)
    s2 = {t for t in s if t[0] != "loop"} or s
    if len(s2) == 1:
        return next(iter(s2))
    return ("phi", frozenset(s2))


def subterms(t, seen=None):
    """every subterm, once (iterative: terms may be deep)"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, (tuple, frozenset)):
            continue
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            if x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(x[1:])
        else:
            st.extend(x)


def alts(t):
    return list(t[1]) if t[0] == "phi" else [t]


class Eval:
    """evaluates operands of one body to terms; env binds the parameters"""

    def __init__(self, prog, body, env=None, depth=3, opaque=None, stack=(), track_none=False):
        self.P, self.body, self.depth, self.opaque, self.stack = prog, body, depth, opaque, stack
        self.env = env if env is not None else [("arg", i) for i in range(body.nargs)]
        self.memo = {}
        self.busy = set()
        self._defs = None
        self.hit_loop = False

    # ---- definitions --------------------------------------------------------------------------
    def defs(self):
        d = self.body._cache.get("defs")
        if d is None:
            whole, part, mut = {}, {}, {}
            reach = self.body.reachable()
            for b, bb in enumerate(self.body.blocks):
                if not bb or b not in reach:
                    continue
                for i, st in enumerate(bb["s"]):
                    pl = st[0]
                    if len(pl) == 1:
                        whole.setdefault(pl[0], []).append((b, i))
                    elif not (pl[1] == "*" and len(pl) == 2):
                        part.setdefault(pl[0], []).append((b, i))
                    else:
                        part.setdefault(pl[0], []).append((b, i))
                    rv = st[1]
                    if rv[0] == "ref" and rv[2]:
                        mut.setdefault(rv[1][0], []).append((b, i))
                t = bb["t"]
                if t[0] == "call":
                    pl = t[3]
                    if len(pl) == 1:
                        whole.setdefault(pl[0], []).append((b, len(bb["s"])))
                    else:
                        part.setdefault(pl[0], []).append((b, len(bb["s"])))
            d = self.body._cache["defs"] = (whole, part, mut)
        return d

    def reaching(self, l, b, i):
        key = ("rd", l, b, i)
        c = self.body._cache.get(key)
        if c is not None:
            return c
        whole = self.defs()[0].get(l, [])
        byb = {}
        for (db, di) in whole:
            byb.setdefault(db, []).append(di)
        out, seen = set(), set()
        st = [(b, i)]
        first = True
        while st:
            cb, ci = st.pop()
            cand = [x for x in byb.get(cb, []) if x < ci]
            if cand:
                out.add((cb, max(cand)))
                continue
            if cb == 0:
                out.add("entry")
            for p in self.body.pred(cb):
                if p not in seen:
                    seen.add(p)
                    st.append((p, 1 << 30))
        self.body._cache[key] = out
        return out

    # ---- terms --------------------------------------------------------------------------------
    def local(self, l, b, i):
        n = self.body.nargs
        whole, part, mut = self.defs()
        ds = whole.get(l, [])
        if 1 <= l <= n and not ds:
            return self.env[l - 1]
        if not ds and l not in part:
            return ("unk", self.body.p, l)
        if len(ds) == 1 and not (1 <= l <= n):
            rd = ds
        else:
            rd = sorted(self.reaching(l, b, i), key=str)
        ts = []
        for d in rd:
            if d == "entry":
                if 1 <= l <= n:
                    ts.append(self.env[l - 1])
                continue
            ts.append(self.def_term(l, d))
        if not ts:
            return ("unk", self.body.p, l)
        return phi(ts)

    def def_term(self, l, d):
        key = (l, d)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            self.hit_loop = True
            return ("loop", self.body.h, l)
        self.busy.add(key)
        b, i = d
        bb = self.body.blocks[b]
        if i < len(bb["s"]):
            t = self.rvalue(bb["s"][i][1], b, i)
        else:
            t = self.call_term(b)
        self.busy.discard(key)
        self.memo[key] = t
        return t

    def place(self, pl, b, i):
        l = pl[0]
        projs = pl[1:]
        t = self.local(l, b, i)
        part = self.defs()[1].get(l)
        if part and projs:
            # field-sensitive partial assignments (flow-insensitive, as alternatives)
            names = [p for p in projs if p != "*"]
            extra = []
            for (db, di) in part:
                bb = self.body.blocks[db]
                dpl = bb["s"][di][0] if di < len(bb["s"]) else bb["t"][3]
                dn = [p for p in dpl[1:] if p != "*"]
                if not self.flows(db, di, b, i):
                    continue
                if dn and len(dn) <= len(names) and all(self._same(x, y) for x, y in zip(dn, names)):
                    key = ("p", l, (db, di))
                    if key in self.busy:
                        self.hit_loop = True
                        continue
                    self.busy.add(key)
                    v = self.rvalue(bb["s"][di][1], db, di) if di < len(bb["s"]) else self.call_term(db)
                    self.busy.discard(key)
                    for p in names[len(dn):]:
                        v = self.proj(v, p, b, i)
                    extra.append(v)
            for p in projs:
                t = self.proj(t, p, b, i)
            if extra:
                base = [] if t[0] == "unk" else [t]
                t = phi(base + extra)
            return t
        for p in projs:
            t = self.proj(t, p, b, i)
        return t

    def flows(self, db, di, b, i):
        """can execution get from statement (db, di) to (b, i)?"""
        if db == b and di < i:
            return True
        r = self.body._cache.setdefault("fwd", {})
        if db not in r:
            seen, st = set(), list(self.body.succ(db))
            while st:
                x = st.pop()
                if x not in seen:
                    seen.add(x)
                    st.extend(self.body.succ(x))
            r[db] = seen
        return b in r[db]

    @staticmethod
    def _same(x, y):
        if x[0] != y[0]:
            return False
        if x[0] == "f":
            return x[1] == y[1]
        return x[0] in ("v", "i") or x == y

    def proj(self, t, p, b, i):
        if p == "*" or p == "?":
            return t
        if t[0] == "phi":
            return phi([self.proj(x, p, b, i) for x in t[1]])
        if p[0] == "f":
            return self.field(t, p[1], p[2])
        if p[0] == "v":
            if p[1] in CONT or p[1] in BAD or p[1] == "None":
                return ("errof", t) if p[1] in BAD else t
            if t[0] == "agg" and t[2] == p[1]:
                return t
            return ("v", t, p[1])
        if p[0] == "i":
            return ("index", t, self.local(p[1], b, i))
        if p[0] in ("ci",):
            if t[0] == "array" and not p[2] and p[1] < len(t[1]):
                return t[1][p[1]]
            return ("index", t, ("c", str(p[1]), "usize"))
        return t

    def field(self, t, name, owner):
        last = owner.split("::")[-1]
        if FREN:
            name = FREN.get((last, name), name)
        if t[0] == "errof":
            return ("err", t[1])
        if name == "0" and last in CONT and ("Option" in owner or "Result" in owner or "ControlFlow" in owner):
            return t
        if t[0] == "agg":
            for n, v in t[3]:
                if n == name:
                    return v
            return ("f", t, owner, name)
        if t[0] in ("tuple",) and name.isdigit() and int(name) < len(t[1]):
            return t[1][int(name)]
        if t[0] == "closure" and "#" in name:
            i = int(name.split("#")[0])
            if i < len(t[2]):
                return t[2][i]
        if t[0] == "op" and t[1].endswith("WithOverflow"):
            return ("op", t[1][: -len("WithOverflow")], t[2]) if name == "0" else ("unk", "overflow", 0)
        if t[0] == "v" and t[1][0] == "agg":
            return self.field(t[1], name, owner)
        return ("f", t, owner, name)

    def operand(self, o, b, i):
        if isinstance(o, list):
            return self.place(o, b, i)
        return self.const(o)

    def const(self, o):
        if o["c"] == "fn":
            return ("fn", cpath(o["fn"]), o["fn"].get("rh") or o["fn"].get("h"))
        ty = self.body.tys[o["t"]].s
        if "promoted" in o:
            pb = self.P.promoted.get((self.body.h, o["promoted"]))
            if pb is not None:
                return Eval(self.P, pb, [], self.depth, self.opaque, self.stack).ret()
        if o.get("def") and o["c"] != "val":
            for cb in self.P.by_path.get(o["def"], []):
                if cb.kind == "const" and cb.h not in self.stack and self.depth > 0:
                    r = Eval(self.P, cb, [], self.depth - 1, self.opaque, self.stack + (cb.h,)).ret()
                    return r
        return ("c", o["v"], ty)

    def ref(self, rv, b, i):
        return self.place(rv[1], b, i)

    def rvalue(self, rv, b, i):
        k = rv[0]
        if k == "use" or k == "repeat":
            return self.operand(rv[1], b, i)
        if k == "ref":
            return self.ref(rv, b, i)
        if k == "cast":
            t = self.operand(rv[1], b, i)
            ty = self.body.tys[rv[2]]
            if ty.k == "prim" and rv[3].startswith(("IntToInt", "FloatToInt", "IntToFloat", "FloatToFloat")):
                return ("cast", t, ty.s)
            return t
        if k == "bin":
            return ("op", rv[1], (self.operand(rv[2], b, i), self.operand(rv[3], b, i)))
        if k == "un":
            return ("op", rv[1], (self.operand(rv[2], b, i),))
        if k == "discr":
            return ("discr", self.place(rv[1], b, i))
        if k == "agg":
            kd, ops = rv[1], [self.operand(o, b, i) for o in rv[2]]
            if kd[0] == "adt":
                last = kd[1].split("::")[-1]
                if last in ("Option", "Result", "ControlFlow"):
                    if kd[2] in CONT:
                        return ops[0] if ops else ("tuple", ())
                    if kd[2] == "None":
                        return NONE
                    return ("errv", ops[0] if ops else ("tuple", ()))
                return ("agg", kd[1], kd[2], tuple(zip([FREN.get((kd[2], n), n) for n in kd[3]] if FREN else kd[3], ops)))
            if kd[0] == "closure":
                return ("closure", kd[2], tuple(ops))
            return (kd[0] if kd[0] in ("tuple", "array") else "tuple", tuple(ops))
        return ("unk", self.body.p, b)

    def args_of(self, b):
        t = self.body.term(b)
        n = len(self.body.blocks[b]["s"])
        return [self.operand(a, b, n) for a in t[2]]

    def call_term(self, b):
        t = self.body.term(b)
        f = t[1]
        args = self.args_of(b)
        if "ptr" in f:
            n = len(self.body.blocks[b]["s"])
            ft = self.operand(f["ptr"], b, n)
            return self.apply(ft, args)
        return self.call(f, args)

    def call(self, f, args):
        name = cname(f)
        path = f.get("p", "")
        std = is_std(f)
        if f.get("tr", "").startswith("core::ops::function::") and args:
            a = args[1] if len(args) > 1 else ("tuple", ())
            return self.apply(args[0], list(a[1]) if a[0] == "tuple" else [a])
        if name == "from" and len(args) == 1 and std:
            # conversions written for workspace types are real calls; std ones are transparent
            tb = self.P.body_of(f)
            if tb is None:
                return args[0]
        if name == "into" and len(args) == 1 and std:
            # resolve `into` to the workspace's From impl if there is one
            ta = [self.body.tys[x] for x in f.get("ta", [])]
            if len(ta) >= 2:
                for im in self.P.impls_of.get("core::convert::From", []):
                    if im.self_ty.s == ta[1].s and im.items.get("from") in self.P.by_hash:
                        bd = self.P.by_hash[im.items["from"]]
                        if bd.lty(1).s == ta[0].s:
                            return self.inline(bd, args, ("call", bd.p, "from", tuple(args)))
            return args[0]
        if std and name == "try_into":
            return ("call", path, "try_into", tuple(args))
        if std and name in IDENT and args:
            return args[0]
        if name == "from_residual" and f.get("r", "").startswith("<core::option::Option"):
            return NONE
        if name in ("from_residual",):
            return ("errv", args[0] if args else ("tuple", ()))
        if std and name in OPS and f.get("tr", "").startswith(("core::ops::", "core::cmp::")):
            return ("op", OPS[name], tuple(args))
        if std and name == "next" and args:
            return self.elem(args[0])
        if std and name in ("map", "and_then") and len(args) == 2 and ("option::Option" in path or "result::Result" in path):
            return self.apply(args[1], [args[0]])
        if std and name in ("index", "index_mut", "get", "get_mut", "get_unchecked", "get_unchecked_mut") and len(args) == 2:
            return ("index", args[0], args[1])
        if std and name == "from_fn" and False:
            return ("unk",)
        tb = self.P.body_of(f)
        cg = self.generics(f) if tb is not None else ()
        full = ("call", cpath(f), name, tuple(args) + cg)
        if tb is not None:
            return self.inline(tb, args, full)
        return full

    def generics(self, f):
        """the constants and the solver a generic function is called with"""
        sol = self.P.__dict__.setdefault("_solvers", {i.self_ty.d for t in ("Solver", "MultiStateSolver") for i in self.P.impls_of.get("pywr_core::solvers::" + t, [])})
        c = tuple(("c", x.split("_")[0], "usize") for x in f.get("ca", []) if x[:1].isdigit())
        return c + tuple(("c", self.body.tys[x].d.split("::")[-1], "") for x in f.get("ta", []) if self.body.tys[x].d in sol and not f.get("tr"))

    def inline(self, tb, args, full):
        if self.depth <= 0 or tb.h in self.stack or tb.h == self.body.h or len(args) != tb.nargs:
            return full
        if tb.expansion and tb.derived:
            return full
        if self.opaque and self.opaque(tb):
            return full
        if len(tb.blocks) > 400:
            return full
        return Eval(self.P, tb, list(args), self.depth - 1, self.opaque, self.stack + (self.body.h,)).ret()

    def apply(self, f, args):
        if f[0] == "phi":
            return phi([self.apply(x, args) for x in f[1]])
        if f[0] == "closure" and f[1] in self.P.by_hash:
            cb = self.P.by_hash[f[1]]
            if self.depth > 0 and cb.h not in self.stack and cb.nargs == len(args) + 1:
                return Eval(self.P, cb, [f] + list(args), self.depth - 1, self.opaque, self.stack + (self.body.h,)).ret()
            return ("call", cb.p, "closure", tuple(args))
        if f[0] == "fn":
            tb = self.P.by_hash.get(f[2] or "")
            name = f[1].split("::")[-1].split("<")[0]
            full = ("call", f[1], name, tuple(args))
            if tb is not None:
                return self.inline(tb, args, full)
            if STD.match(f[1]) and name in IDENT and args:
                return args[0]
            last = f[1].split("::")[-1]
            if "::" in f[1] and last[:1].isupper() and len(args) >= 1:  # tuple struct / variant constructor
                if last in CONT:
                    return args[0]
                return ("agg", "::".join(f[1].split("::")[:-1]), last, tuple((str(n), a) for n, a in enumerate(args)))
            return full
        return ("call", "?", "?", tuple([f] + list(args)))

    def elem(self, t):
        if t[0] == "phi":
            return phi([self.elem(x) for x in t[1]])
        if t[0] == "array":
            return phi(list(t[1])) if t[1] else ("elem", t)
        if t[0] == "call" and t[3]:
            n, a = t[2], t[3]
            if n in ("zip",) and len(a) == 2:
                return ("tuple", (self.elem(a[0]), self.elem(a[1])))
            if n == "enumerate":
                return ("tuple", (("idx", a[0]), self.elem(a[0])))
            if n in ("map", "filter_map", "flat_map", "map_while") and len(a) == 2:
                r = self.apply(a[1], [self.elem(a[0])])
                return self.elem(r) if n == "flat_map" else r
            if n in ("chain",) and len(a) == 2:
                return phi([self.elem(a[0]), self.elem(a[1])])
            if n in ("multi_zip", "izip") and a:
                return ("tuple", tuple(self.elem(x) for x in a))
            if n in ADAPT:
                return self.elem(a[0])
        if t[0] == "tuple" and False:
            return t
        return ("elem", t)

    def ret(self):
        """the success value(s) this body returns"""
        key = "ret"
        if key in self.memo:
            return self.memo[key]
        ts = []
        for b, bb in enumerate(self.body.blocks):
            if bb and bb["t"][0] == "return" and b in self.body.reachable():
                ts.append(self.local(0, b, 1 << 29))
        if not ts:
            r = ("never",)
        else:
            r = phi(ts)
            good = [x for x in alts(r) if x[0] not in ("errv",)]
            r = phi(good) if good else r
        self.memo[key] = r
        return r


# ---- control flow: error pruning, post-dominance, guards ------------------------------------------
def err_blocks(P, body):
    """blocks that commit the function to returning Err/None-by-`?` or to panicking"""
    c = body._cache.get("errb")
    if c is not None:
        return c
    out = set()
    rt = body.ret_ty()
    is_res = rt.k == "adt" and rt.d.endswith(("result::Result", "option::Option"))
    for b, bb in enumerate(body.blocks):
        if not bb:
            continue
        t = bb["t"]
        if t[0] == "call":
            if cname(t[1]) == "from_residual" and t[3][0] == 0 and not t[1].get("r", "").startswith("<core::option::Option"):
                out.add(b)
            elif t[4] is None:
                out.add(b)
        if t[0] in ("unreachable", "resume"):
            out.add(b)
        for st in bb["s"]:
            if st[0] == [0] and st[1][0] == "agg" and st[1][1][0] == "adt":
                if is_res and st[1][1][2] == "Err":
                    out.add(b)
    body._cache["errb"] = out
    return out


def pruned_succ(P, body):
    """successors after removing every block from which a success return cannot be reached"""
    c = body._cache.get("psucc")
    if c is not None:
        return c
    eb = err_blocks(P, body)
    n = len(body.blocks)
    # blocks that reach a return without passing an error block
    good, st = set(), []
    for b, bb in enumerate(body.blocks):
        if bb and bb["t"][0] == "return":
            # a shared return block can follow both Ok and Err assignments; it is good as a join
            good.add(b)
            st.append(b)
    while st:
        b = st.pop()
        for p in body.pred(b):
            if p not in good and p not in eb:
                good.add(p)
                st.append(p)
    # infinite loops (rare): keep blocks as is
    succ = {b: [s for s in body.succ(b) if s in good] for b in good}
    body._cache["psucc"] = succ
    return succ


def postdom(P, body, pruned=True):
    key = ("pdom", pruned)
    c = body._cache.get(key)
    if c is not None:
        return c
    if pruned:
        succ = pruned_succ(P, body)
    else:
        succ = {b: body.succ(b) for b in range(len(body.blocks)) if body.blocks[b]}
    nodes = [b for b in succ if b in body.reachable()]
    ns = set(nodes)
    EXIT = -1
    full = ns | {EXIT}
    pd = {b: set(full) for b in nodes}
    pd[EXIT] = {EXIT}
    order = sorted(nodes, reverse=True)
    changed = True
    while changed:
        changed = False
        for b in order:
            ss = [s for s in succ[b] if s in ns] or [EXIT]
            new = set.intersection(*[pd[s] for s in ss]) | {b}
            if new != pd[b]:
                pd[b] = new
                changed = True
    body._cache[key] = pd
    return pd


def dominators(body):
    c = body._cache.get("dom")
    if c is not None:
        return c
    r = body.reachable()
    dom = {b: set(r) for b in r}
    dom[0] = {0}
    order = sorted(r)
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == 0:
                continue
            ps = [p for p in body.pred(b) if p in r]
            new = (set.intersection(*[dom[p] for p in ps]) if ps else set()) | {b}
            if new != dom[b]:
                dom[b] = new
                ch = True
    body._cache["dom"] = dom
    return dom


def control_deps(P, body):
    """block -> set of (switch block, successor) that directly control it (on success paths)"""
    c = body._cache.get("cdep")
    if c is not None:
        return c
    succ = pruned_succ(P, body)
    pd = postdom(P, body)
    out = {b: set() for b in pd if b != -1}
    for a in out:
        ss = [s for s in succ.get(a, []) if s in pd]
        if len(ss) < 2:
            continue
        for s in ss:
            for x in pd[s]:
                if x != -1 and (x not in pd[a] or x == a):
                    out[x].add((a, s))
    body._cache["cdep"] = out
    return out


OPTV = {"0": "None", "1": "Some"}
RESV = {"0": "Ok", "1": "Err"}
CFV = {"0": "Continue", "1": "Break"}


def variants_of(P, ty):
    ty = ty.peel()
    d = ty.d
    if d.endswith("option::Option"):
        return OPTV
    if d.endswith("result::Result"):
        return RESV
    if d.endswith("ControlFlow"):
        return CFV
    a = P.adts.get(d)
    return a.discr if a else {}


def switch_info(ev, b):
    """(subject term, {succ block: set(labels)}, kind) of a switch terminator; kind: discr | bool | int"""
    body = ev.body
    bb = body.blocks[b]
    t = bb["t"]
    op = t[1]
    n = len(bb["s"])
    kind, subj, names = "int", None, None
    if isinstance(op, list) and len(op) == 1:
        ds = ev.defs()[0].get(op[0], [])
        for (db, di) in ds:
            dbb = body.blocks[db]
            if di < len(dbb["s"]) and dbb["s"][di][1][0] == "discr":
                rv = dbb["s"][di][1]
                kind = "discr"
                subj = ev.place(rv[1], db, di)
                names = variants_of(ev.P, body.tys[rv[2]])
                break
    if subj is None:
        subj = ev.operand(op, b, n)
        if body.tys[t[4]].s == "bool":
            kind = "bool"
    labels = {}
    used = set()
    for v, s in t[2]:
        nm = names.get(v, v) if names is not None else (("false" if v == "0" else "true") if kind == "bool" else v)
        labels.setdefault(s, set()).add(nm)
        used.add(nm)
    oth = set()
    if names:
        oth = set(names.values()) - used
    elif kind == "bool":
        oth = {"true", "false"} - used
    else:
        oth = {"_"}
    labels.setdefault(t[3], set()).update(oth or {"_"})
    return subj, labels, kind


def guards(ev, b):
    """conditions under which block b runs on success paths: list of (kind, subject term, labels).
    `?` checks, loop-iteration tests and error exits are not conditions."""
    P, body = ev.P, ev.body
    cd = control_deps(P, body)
    out, seen, st = [], set(), [b]
    while st:
        x = st.pop()
        for (a, s) in cd.get(x, ()):
            if (a, s) in seen:
                continue
            seen.add((a, s))
            st.append(a)
            t = body.term(a)
            if t[0] != "switch":
                continue
            subj, labels, kind = switch_info(ev, a)
            lab = frozenset(labels.get(s, ()))
            allv = set().union(*labels.values())
            out.append((kind, subj, lab, frozenset(allv), a))
    return out


def is_loop_guard(ev, a):
    """switch on the result of Iterator::next"""
    body = ev.body
    bb = body.blocks[a]
    op = bb["t"][1]
    if isinstance(op, list) and len(op) == 1:
        for (db, di) in ev.defs()[0].get(op[0], []):
            dbb = body.blocks[db]
            if di < len(dbb["s"]) and dbb["s"][di][1][0] == "discr":
                pl = dbb["s"][di][1][1]
                for (cb, ci) in ev.defs()[0].get(pl[0], []):
                    cbb = body.blocks[cb]
                    if ci == len(cbb["s"]) and cbb["t"][0] == "call":
                        n = cname(cbb["t"][1])
                        if n == "next":
                            return "next"
                        if n == "branch":
                            return "try"
    return None


def dropflag(ev, a):
    """switch on a compiler-made drop flag (bool local with only constant definitions and no name)"""
    body = ev.body
    op = body.blocks[a]["t"][1]
    if not (isinstance(op, list) and len(op) == 1):
        return False
    l = op[0]
    if body.lty(l).s != "bool" or body.lname(l):
        return False
    ds = ev.defs()[0].get(l, [])
    if len(ds) < 2:
        return False
    for (db, di) in ds:
        dbb = body.blocks[db]
        if di >= len(dbb["s"]):
            return False
        rv = dbb["s"][di][1]
        if not (rv[0] == "use" and isinstance(rv[1], dict) and rv[1].get("c") == "val"):
            return False
    return True


def real_guards(ev, b):
    """guards without loop tests, `?` tests and drop flags"""
    out = []
    for g in guards(ev, b):
        if is_loop_guard(ev, g[4]) or dropflag(ev, g[4]):
            continue
        out.append(g)
    return out


def must_pass(P, body, blocks, start=0, ends=None):
    """does every success path from start to a return (or to `ends`) pass through one of `blocks`?
    Returns None if yes, else an escaping path (list of blocks)."""
    succ = pruned_succ(P, body)
    blocks = set(blocks)
    if start in blocks:
        return None
    prev, st = {start: None}, [start]
    while st:
        b = st.pop()
        isend = (b in ends) if ends is not None else body.term(b)[0] == "return"
        if isend and b != start:
            path = []
            x = b
            while x is not None:
                path.append(x)
                x = prev[x]
            return path[::-1]
        if isend and ends is None:
            return [b]
        for s in succ.get(b, []):
            if s not in prev and s not in blocks:
                prev[s] = b
                st.append(s)
    return None


# ---- context-sensitive walk over calls -------------------------------------------------------------
class Site:
    __slots__ = ("ev", "b", "f", "args", "guards", "chain")

    def __init__(self, ev, b, f, args, guards, chain):
        self.ev, self.b, self.f, self.args, self.guards, self.chain = ev, b, f, args, guards, chain

    @property
    def loc(self):
        return self.ev.body.loc(self.b)

    @property
    def fn(self):
        return self.ev.body.p


def walk(P, body, want, env=None, depth=4, opaque=None, descend=None, _g=(), _chain=(), _stack=(), with_guards=True):
    """yield a Site for each call satisfying want(callee) reachable from body through workspace helpers and
    closures, with argument terms expressed in body's parameters and the guards accumulated on the way"""
    ev = Eval(P, body, env, depth=max(depth, 0), opaque=opaque, stack=_stack)
    reach = body.reachable()
    succ = pruned_succ(P, body)
    for b, f, a, dest, tgt in body.calls():
        if b not in reach:
            continue
        g = None
        ww = want(f)
        tb = P.body_of(f) if "ptr" not in f else None
        args = None
        if ww:
            args = ev.args_of(b)
            g = _g + tuple(real_guards(ev, b)) if with_guards else _g
            yield Site(ev, b, f, args, g, _chain)
        if depth <= 0:
            continue
        # descend into helpers
        if tb is not None and tb.h not in _stack and tb.h != body.h and (descend is None or descend(tb)) and len(a) == tb.nargs:
            args = args if args is not None else ev.args_of(b)
            if g is None:
                g = _g + tuple(real_guards(ev, b)) if with_guards else _g
            yield from walk(P, tb, want, args, depth - 1, opaque, descend, g, _chain + ((body, b),), _stack + (body.h,), with_guards)
        # descend into closures given to std / workspace adapters
        for ai, o in enumerate(a):
            cl = None
            if isinstance(o, list):
                lt = body.lty(o[0]) if len(o) == 1 else None
                if lt is not None and lt.peel().k == "closure":
                    args = args if args is not None else ev.args_of(b)
                    for t in alts(args[ai]):
                        if t[0] == "closure":
                            cl = t
            if cl is not None and cl[1] in P.by_hash and cl[1] not in _stack:
                cb = P.by_hash[cl[1]]
                nm = cname(f)
                np = cb.nargs - 1
                if np == 1 and ai >= 1:
                    path = f.get("p", "")
                    if "option::Option" in path or "result::Result" in path:
                        ps = [args[0]]
                    else:
                        ps = [ev.elem(args[0])]
                elif np == 2 and nm in ("fold", "try_fold", "fold_with") and ai >= 2:
                    ps = [args[1], ev.elem(args[0])]
                else:
                    ps = [("unk", cb.p, n) for n in range(np)]
                if g is None:
                    g = _g + tuple(real_guards(ev, b)) if with_guards else _g
                yield from walk(P, cb, want, [cl] + ps, depth - 1, opaque, descend, g, _chain + ((body, b),), _stack + (body.h,), with_guards)


class Eff:
    __slots__ = ("ev", "b", "target", "value", "guards", "chain")

    def __init__(self, ev, b, target, value, guards, chain):
        self.ev, self.b, self.target, self.value, self.guards, self.chain = ev, b, target, value, guards, chain

    @property
    def loc(self):
        return self.ev.body.loc(self.b)


def root_of(t):
    while t[0] in ("f", "v", "index", "elem", "err", "errof", "cast"):
        t = t[1]
    return t


def effects(P, body, env=None, depth=4, opaque=None, descend=None, _g=(), _chain=(), _stack=()):
    """assignments to memory reachable from the body's parameters, through workspace helpers and closures:
    target and value are terms over the parameters"""
    ev = Eval(P, body, env, depth=max(depth, 0), opaque=opaque, stack=_stack)
    reach = body.reachable()
    for b in sorted(reach):
        bb = body.blocks[b]
        if not bb:
            continue
        g = None
        for i, st in enumerate(bb["s"]):
            pl = st[0]
            if len(pl) == 1:
                continue
            base = ev.local(pl[0], b, i)
            for x in alts(base):
                t = x
                for p in pl[1:]:
                    t = ev.proj(t, p, b, i)
                for y in alts(t):
                    if root_of(y)[0] in ("arg",):
                        if g is None:
                            g = _g + tuple(real_guards(ev, b))
                        yield Eff(ev, b, y, ev.rvalue(st[1], b, i), g, _chain)
        t = bb["t"]
        if t[0] != "call":
            continue
        if len(t[3]) > 1:
            n = len(bb["s"])
            base = ev.local(t[3][0], b, n)
            for x in alts(base):
                tt = x
                for p in t[3][1:]:
                    tt = ev.proj(tt, p, b, n)
                if root_of(tt)[0] == "arg":
                    if g is None:
                        g = _g + tuple(real_guards(ev, b))
                    yield Eff(ev, b, tt, ev.call_term(b), g, _chain)
        if depth <= 0 or "ptr" in t[1]:
            continue
        f = t[1]
        tb = P.body_of(f)
        nm = cname(f)
        args = None
        if tb is not None and tb.h not in _stack and tb.h != body.h and (descend is None or descend(tb)) and len(t[2]) == tb.nargs:
            args = ev.args_of(b)
            if g is None:
                g = _g + tuple(real_guards(ev, b))
            yield from effects(P, tb, args, depth - 1, opaque, descend, g, _chain + ((body, b),), _stack + (body.h,))
        elif tb is None and f.get("tr", "").startswith("core::ops::arith::") and nm.endswith("_assign"):
            args = ev.args_of(b)
            if root_of(args[0])[0] == "arg":
                if g is None:
                    g = _g + tuple(real_guards(ev, b))
                op = {"add_assign": "Add", "sub_assign": "Sub", "mul_assign": "Mul", "div_assign": "Div"}.get(nm, nm)
                yield Eff(ev, b, args[0], ("op", op, (args[0], args[1])), g, _chain)
        for ai, o in enumerate(t[2]):
            if isinstance(o, list) and len(o) == 1 and body.lty(o[0]).peel().k == "closure":
                args = args if args is not None else ev.args_of(b)
                for cl in alts(args[ai]):
                    if cl[0] == "closure" and cl[1] in P.by_hash and cl[1] not in _stack:
                        cb = P.by_hash[cl[1]]
                        np = cb.nargs - 1
                        path = f.get("p", "")
                        if np == 1 and ai >= 1:
                            ps = [args[0]] if ("option::Option" in path or "result::Result" in path) else [ev.elem(args[0])]
                        else:
                            ps = [("unk", cb.p, n) for n in range(np)]
                        if g is None:
                            g = _g + tuple(real_guards(ev, b))
                        yield from effects(P, cb, [cl] + ps, depth - 1, opaque, descend, g, _chain + ((body, b),), _stack + (body.h,))


COMM = {"Add", "Mul", "BitAnd", "BitOr", "Eq", "Ne"}


def norm(t):
    """normal form: commutative operands sorted, a > b as b < a, casts between numeric types dropped"""
    if not isinstance(t, tuple) or not t:
        return t
    k = t[0]
    if k == "op":
        a = tuple(norm(x) for x in t[2])
        o = t[1].replace("Unchecked", "").replace("WithOverflow", "")
        if o == "Gt":
            o, a = "Lt", a[::-1]
        if o == "Ge":
            o, a = "Le", a[::-1]
        if o in COMM:
            a = tuple(sorted(a, key=repr))
        return ("op", o, a)
    if k == "cast":
        return norm(t[1])
    if k == "phi":
        return phi([norm(x) for x in t[1]])
    if k == "f":
        return ("f", norm(t[1]), t[2], t[3])
    if k == "call":
        return ("call", t[1], t[2], tuple(norm(x) for x in t[3]))
    if k in ("elem", "discr", "err"):
        return (k, norm(t[1]))
    if k == "index":
        return (k, norm(t[1]), norm(t[2]))
    if k == "v":
        return (k, norm(t[1]), t[2])
    if k == "agg":
        return (k, t[1], t[2], tuple((n, norm(x)) for n, x in t[3]))
    if k in ("tuple", "array"):
        return (k, tuple(norm(x) for x in t[1]))
    return t


def flat(t, op):
    """operands of a nested commutative operator"""
    if t[0] == "op" and t[1] == op:
        out = []
        for x in t[2]:
            out += flat(x, op)
        return out
    return [t]
