"""The vocabulary: the operations of the code base that are judged in their own right and therefore stand as named operations in
the tables of their callers (lib/base.json, reviewed with the specifications). Everything else - helpers, accessors, new code -
is expanded wherever it is called. Also maps renamed fields back to the names the specifications use."""
import json, os, re
from facts import strip_generics

HERE = os.path.dirname(os.path.abspath(__file__))


def plain(s):
    """type or path text without module prefixes"""
    return re.sub(r"\b(?:[a-z_]\w*::)+(?=[A-Za-z_<])", "", s)


def ident(b):
    """name of a function that does not depend on the module it lives in"""
    if b.self_ty is not None and b.trait:
        ta = [plain(x.s) for x in b.trait_args()]
        return f"<{plain(b.self_ty.s)} as {b.trait.split('::')[-1]}{'<' + ','.join(ta) + '>' if ta else ''}>::{b.name}"
    if b.self_ty is not None:
        return f"{plain(b.self_ty.s)}::{b.name}"
    if b.default_of:
        return f"{b.default_of.split('::')[-1]}::{b.name}"
    p = strip_generics(b.p).split("::")
    return "::".join(p[-2:])


def where(b):
    """tells functions of the same name apart: crate, solver, crates of the types in the impl header"""
    c = b.file.split("/")
    out = [c[0].replace("pywr-", "")] + [x for x in c[2:-1] if x.startswith("ipm_")]
    if b.trait:
        out += [x.split("::")[0] for x in re.findall(r"(?:\w+::)+\w+", b.self_ty.s + " " + " ".join(t.s for t in b.trait_args()))]
    return " @" + " ".join(dict.fromkeys(out))


def sig(b):
    return [plain(b.lty(i + 1).s) for i in range(b.nargs)] + [plain(b.lty(0).s)]


def cand(b):
    return not b.derived and b.kind in ("fn", "method") and not b.expansion and not re.search(r"::tests?\b|test_utils", b.p) and "/tests/" not in b.file


def fieldsof(a):
    return {v: [[f, plain(t.s)] for f, t in fs.items()] for v, (_, fs) in a.variants.items()}


class Base:
    def __init__(self, P, raw=None):
        self.raw = raw if raw is not None else json.load(open(os.path.join(HERE, "base.json")))
        self.ops = set(self.raw["ops"])
        self.memo = {}
        cur = {}
        for b in P.bodies:
            if cand(b):
                cur.setdefault(ident(b), sig(b))
        self.lost = {o.split("::")[-1] for o in self.ops if cur.get(o) != self.raw["sigs"].get(o)}
        self.lost_re = re.compile(r"\b(?:" + "|".join(map(re.escape, sorted(self.lost))) + r")\(") if self.lost else None
        self.fren = {}
        now = {}
        for p, a in P.adts.items():
            now.setdefault(plain(p), a)
        for p, vs in self.raw["adts"].items():
            a = now.get(p)
            if a is None:
                continue
            c = fieldsof(a)
            for v, fs in vs.items():
                if v in c and len(c[v]) == len(fs) and [t for _, t in c[v]] == [t for _, t in fs]:
                    for (n, _), (o, _) in zip(c[v], fs):
                        if n != o and n not in {x for x, _ in fs} and o not in {x for x, _ in c[v]}:
                            self.fren[(v if v else p.split("::")[-1], n)] = o

    def op(self, t):
        r = self.memo.get(t.h)
        if r is None:
            r = self.memo[t.h] = cand(t) and ident(t) in self.ops
        return r


def base(P):
    if not hasattr(P, "_base"):
        P._base = Base(P)
        import terms
        terms.FREN = P._base.fren
    return P._base
