"""Program model over the facts that driver/main.rs extracts (resolved MIR of every workspace crate)."""
import json, os, re, collections

FACTS = None


class Ty:
    __slots__ = ("s", "k", "d", "ai", "tab")

    def __init__(self, raw, tab):
        self.s, self.k, self.d, self.ai, self.tab = raw["s"], raw["k"], raw["d"], raw["a"], tab

    @property
    def args(self):
        return [self.tab[i] for i in self.ai]

    def peel(self):
        """strip references, Box, Arc, Rc"""
        t = self
        while True:
            if t.k in ("ref", "ptr") and t.ai:
                t = t.args[0]
            elif t.k == "adt" and t.d in ("alloc::boxed::Box", "alloc::sync::Arc", "alloc::rc::Rc") and t.ai:
                t = t.args[0]
            else:
                return t

    def walk(self, seen=None):
        """all types inside (generic arguments, elements)"""
        seen = set() if seen is None else seen
        if self.s in seen:
            return
        seen.add(self.s)
        yield self
        for a in self.args:
            yield from a.walk(seen)

    def adts(self):
        return {t.d for t in self.walk() if t.k == "adt"}

    def __repr__(self):
        return self.s


class Body:
    def __init__(self, raw, crate, tys):
        self.raw, self.crate, self.tys = raw, crate, tys
        self.p, self.h, self.name, self.kind = raw["p"], raw["h"], raw["n"], raw["k"]
        self.file, self.line, self.nargs = raw["file"], raw["line"], raw["args"]
        self.blocks = raw["b"]
        self.trait = raw.get("trait")
        self.self_ty = tys[raw["self"]] if "self" in raw else None
        self.default_of = raw.get("default_of")
        self.derived = raw.get("derived", False)
        self.expansion = raw.get("exp", False)
        self.vis = raw.get("vis", "priv")
        self.root = raw.get("rooth")
        self.rootp = raw.get("root")
        self._succ = self._pred = None
        self._cache = {}

    def __repr__(self):
        return f"<{self.p}>"

    def lty(self, l):
        return self.tys[self.raw["locals"][l][0]]

    def lname(self, l):
        x = self.raw["locals"][l]
        return x[1] if len(x) > 1 else None

    def trait_args(self):
        return [self.tys[i] for i in self.raw.get("trait_args", [])]

    def ret_ty(self):
        return self.lty(0)

    def term(self, b):
        return self.blocks[b]["t"]

    def succ(self, b):
        if self._succ is None:
            self._build()
        return self._succ[b]

    def pred(self, b):
        if self._succ is None:
            self._build()
        return self._pred[b]

    def _build(self):
        n = len(self.blocks)
        self._succ = [[] for _ in range(n)]
        self._pred = [[] for _ in range(n)]
        for i, bb in enumerate(self.blocks):
            if bb is None:
                continue
            t = bb["t"]
            k = t[0]
            if k == "goto":
                s = [t[1]]
            elif k == "switch":
                s = []
                for _, x in t[2]:
                    if x not in s:
                        s.append(x)
                if t[3] not in s:
                    s.append(t[3])
            elif k == "drop":
                s = [t[2]]
            elif k == "call":
                s = [t[4]] if t[4] is not None else []
            elif k == "assert":
                s = [t[4]]
            else:
                s = []
            s = [x for x in s if self.blocks[x] is not None]
            self._succ[i] = s
            for x in s:
                self._pred[x].append(i)

    def calls(self):
        """yield (block, callee-dict, args, dest, target)"""
        for i, bb in enumerate(self.blocks):
            if bb and bb["t"][0] == "call":
                t = bb["t"]
                yield i, t[1], t[2], t[3], t[4]

    def loc(self, b=None):
        l = self.blocks[b]["l"] if b is not None else self.line
        return f"{self.file}:{l}"

    def reachable(self):
        r = self._cache.get("reach")
        if r is None:
            r, st = {0}, [0]
            while st:
                b = st.pop()
                for s in self.succ(b):
                    if s not in r:
                        r.add(s)
                        st.append(s)
            self._cache["reach"] = r
        return r


class Adt:
    def __init__(self, raw, crate, tys):
        self.p, self.kind, self.file, self.line, self.crate = raw["p"], raw["k"], raw["file"], raw["line"], crate
        self.h = raw["h"]
        # variant name -> (discr, {field: Ty})
        self.variants = {v[0]: (v[1], {f[0]: tys[f[1]] for f in v[2]}) for v in raw["v"]}
        self.discr = {v[1]: v[0] for v in raw["v"]}

    @property
    def fields(self):
        return next(iter(self.variants.values()))[1] if self.variants else {}

    def __repr__(self):
        return f"<adt {self.p}>"


class Impl:
    def __init__(self, raw, crate, tys):
        self.trait, self.trait_full, self.self_ty = raw["t"], raw["tf"], tys[raw["s"]]
        self.items = {n: h for n, h in raw["i"]}
        self.file, self.line, self.derived, self.crate = raw["file"], raw["line"], raw["derived"], crate


def compound(body, known):
    """`x += y` on a type with its own operator is a call that gets `&mut x`: written as the assignment `x = x + y`"""
    cs = [i for i, bb in enumerate(body.blocks) if bb and bb["t"][0] == "call" and isinstance(bb["t"][1], dict)
          and (bb["t"][1].get("tr") or "").startswith("core::ops::arith::") and bb["t"][1]["tr"].endswith("Assign")
          and bb["t"][1].get("rh") not in known and bb["t"][4] is not None]
    if not cs:
        return
    text = json.dumps([bb and [[(st[0], st[1]) for st in bb["s"]], bb["t"]] for bb in body.blocks])
    for i in cs:
        t = body.blocks[i]["t"]
        a = t[2][0]
        if not isinstance(a, list) or len(a) != 1:
            continue
        ds = [(bb, k) for bb in body.blocks if bb for k, st in enumerate(bb["s"]) if st[0] == a]
        op = t[1]["tr"].split("::")[-1][:-6]
        if len(ds) == 1 and ds[0][0]["s"][ds[0][1]][1][0] == "ref" and len(re.findall(r"\[%d[\],]" % a[0], text)) == 2:
            bb, k = ds[0]
            place = bb["s"][k][1][1]
            bb["s"][k] = [[a[0]], ["use", {"c": "other", "v": "()", "t": body.raw["locals"][a[0]][0]}], bb["s"][k][2]]
        elif not ds:
            place = [a[0], "*"]
        else:
            continue
        body.blocks[i]["s"].append([place, ["bin", op, place, t[2][1]], body.blocks[i]["l"]])
        body.blocks[i]["t"] = ["goto", t[4]]


class Prog:
    def __init__(self, d):
        self.bodies = []
        self.by_hash = {}
        self.promoted = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.crates = []
        for fn in sorted(os.listdir(d)):
            if not fn.endswith(".json"):
                continue
            raw = json.load(open(os.path.join(d, fn)))
            crate = raw["crate"]
            self.crates.append(fn[:-5])
            tab = []
            for t in raw["types"]:
                tab.append(Ty(t, tab))
            for b in raw["bodies"]:
                o = Body(b, crate, tab)
                if "promoted" in b:
                    self.promoted[(o.h, b["promoted"])] = o
                else:
                    self.bodies.append(o)
                    self.by_hash[o.h] = o
            for a in raw["adts"]:
                o = Adt(a, crate, tab)
                if o.p not in self.adts:
                    self.adts[o.p] = o
            for a in raw["impls"]:
                self.impls.append(Impl(a, crate, tab))
            for t in raw["traits"]:
                self.traits[t["p"]] = t["i"]
        for b in self.bodies:
            compound(b, self.by_hash)
        self.by_path = collections.defaultdict(list)
        for b in self.bodies:
            self.by_path[b.p].append(b)
        self.by_name = collections.defaultdict(list)
        for b in self.bodies:
            self.by_name[b.name].append(b)
        self.impls_of = collections.defaultdict(list)
        for i in self.impls:
            self.impls_of[i.trait].append(i)
        self.closures_of = collections.defaultdict(list)
        for b in self.bodies:
            if b.root:
                self.closures_of[b.root].append(b)
        self._callers = None

    # ---- lookup -------------------------------------------------------------------------------
    def fns(self, pat, crate=None):
        """bodies (non closure) whose path matches the regex (search)"""
        r = re.compile(pat)
        return [b for b in self.bodies if b.kind in ("fn", "method") and r.search(b.p) and (crate is None or b.crate == crate)]

    def method(self, adt_suffix, name, trait=None):
        """methods `name` implemented for the ADT whose path ends with adt_suffix"""
        out = []
        for b in self.by_name[name]:
            if b.self_ty is None:
                continue
            d = b.self_ty.peel().d
            if (d == adt_suffix or d.endswith("::" + adt_suffix)) and (
                trait is None or (b.trait or "").split("::")[-1] == trait
            ):
                out.append(b)
        return out

    def adt(self, suffix):
        c = [a for p, a in self.adts.items() if p == suffix or p.endswith("::" + suffix)]
        return c[0] if len(c) == 1 else (min(c, key=lambda a: len(a.p)) if c else None)

    def body_of(self, callee):
        """the single body a call resolves to, if it is in the workspace"""
        h = callee.get("rh") or ""
        b = self.by_hash.get(h) if h else None
        if b is None and not callee.get("tr"):
            b = self.by_hash.get(callee.get("h", ""))
        return b

    def targets(self, callee):
        """all workspace bodies a call may reach (dynamic / generic dispatch = every impl of the method)"""
        b = self.body_of(callee)
        if b is not None:
            return [b]
        tr = callee.get("tr")
        if tr and tr in self.traits:
            name = callee["p"].split("::")[-1]
            out = []
            for im in self.impls_of[tr]:
                h = im.items.get(name)
                if h and h in self.by_hash:
                    out.append(self.by_hash[h])
            d = self.by_hash.get(callee.get("h", ""))
            if d is not None:
                out.append(d)
            return out
        return []

    def closure_consts(self, body):
        """closure hashes created in the body, fn items mentioned as values"""
        out = []
        for bb in body.blocks:
            if not bb:
                continue
            for st in bb["s"]:
                rv = st[1]
                if rv[0] == "agg" and rv[1][0] == "closure":
                    out.append(("closure", rv[1][2]))
                for o in rv[1:]:
                    if isinstance(o, dict) and o.get("c") == "fn":
                        out.append(("fn", o["fn"]))
            if bb["t"][0] == "call":
                for a in bb["t"][2]:
                    if isinstance(a, dict) and a.get("c") == "fn":
                        out.append(("fn", a["fn"]))
        return out

    def effectful(self):
        """hashes of the functions that may write outside the program: files, or a foreign solver"""
        if not hasattr(self, "_eff"):
            io = re.compile(r"^(<.* as )?(std::fs::(write|create|copy|rename|remove)|std::fs::(File|OpenOptions)::(create|open)\w*$|hdf5\w*::.*(create|append)|csv::writer::Writer.*(from_path|write_\w+|serialize)|(highs_sys|coin_or_sys|ocl|ocl_core)::)")
            rev, bad = {}, []
            for b in self.bodies:
                for _, f, *_ in b.calls():
                    if io.match(f.get("p", "")) and f["p"] != "std::fs::File::open":
                        bad.append(b.h)
                for c in self.callees(b):
                    rev.setdefault(c.h if hasattr(c, "h") else c, []).append(b.h)
            seen = set(bad)
            while bad:
                for x in rev.get(bad.pop(), []):
                    if x not in seen:
                        seen.add(x)
                        bad.append(x)
            self._eff = seen
        return self._eff

    def callees(self, body):
        c = body._cache.get("callees")
        if c is None:
            c = []
            for _, f, _, _, _ in body.calls():
                c.extend(self.targets(f))
            for k, x in self.closure_consts(body):
                if k == "closure":
                    if x in self.by_hash:
                        c.append(self.by_hash[x])
                else:
                    c.extend(self.targets(x))
            u, seen = [], set()
            for b in c:
                if b.h not in seen:
                    seen.add(b.h)
                    u.append(b)
            c = body._cache["callees"] = u
        return c

    def reach(self, roots, stop=None):
        seen, st = {}, list(roots)
        for r in roots:
            seen[r.h] = r
        while st:
            b = st.pop()
            for c in self.callees(b):
                if c.h not in seen and not (stop and stop(c)):
                    seen[c.h] = c
                    st.append(c)
        return list(seen.values())

    def callers(self, h):
        if self._callers is None:
            self._callers = collections.defaultdict(list)
            for b in self.bodies:
                for i, f, a, d, t in b.calls():
                    for x in self.targets(f):
                        self._callers[x.h].append((b, i))
        return self._callers[h]


def strip_generics(p):
    """`a::B<C>::d` -> `a::B::d`"""
    out, d = [], 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            d += 1
        elif c == ">" and (i == 0 or p[i - 1] != "-"):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out).replace("::::", "::")


def cname(callee):
    """last path segment of a callee"""
    p = callee.get("p", "")
    return p.split("::")[-1].split("<")[0] if p else ""


def cpath(callee):
    """resolved path if any, else declared path"""
    r = callee.get("r", "")
    return r if r not in ("", "dyn", "shim") else callee.get("p", "")
