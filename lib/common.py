import re
from facts import strip_generics, cname, cpath
from terms import show, subterms, alts


def callee_is(*pats):
    rs = [re.compile(p) for p in pats]
    def f(c):
        if "ptr" in c:
            return False
        full = (c.get("p", ""), c.get("r", ""))
        ps = tuple(strip_generics(x) for x in full)
        return any(r.search(x) for r in rs for x in ps + full)
    return f


def sp(b):
    """readable stable name of a body"""
    p = b.p
    m = re.match(r"^<(.+) as (.+?)>::(\w+)$", p)
    if m:
        return f"{strip_generics(m.group(1))}::{m.group(3)}"
    return strip_generics(p)


def short(p):
    """last two segments"""
    return "::".join(strip_generics(p).split("::")[-2:])


def fields_in(t):
    """names of the fields read anywhere in the term"""
    return {x[3] for x in subterms(t) if x[0] == "f"}


def calls_in(t):
    return {x[2] for x in subterms(t) if x[0] == "call"}


def ops_in(t):
    return {x[1] for x in subterms(t) if x[0] == "op"}


def consts_in(t):
    return {x[1] for x in subterms(t) if x[0] == "c"}


def each_of(t):
    """(collection, index or None) if the term is an element of a collection"""
    if t[0] == "elem":
        return t[1], None
    if t[0] == "index":
        return t[1], t[2]
    return None, None
