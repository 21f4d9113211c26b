"""Each parameter type computes its documented formula."""
import specs
from facts import strip_generics

EXPLAIN = ("The compute, before and after routine of every parameter type (and the helpers it calls) is turned into a decision table by "
           "path-sensitive value-flow analysis of its MIR: every value it can return, every write to its own state, and the condition for each. "
           "The table must equal the one its documentation calls for: same values, same conditions (compared as Boolean functions), no further "
           "effects. Loops and iterator chains are judged by one generic iteration.")
ASSUMPTIONS = ["a loop over a collection is judged by one generic iteration", "library functions (day of year, powers, rounding) mean what their documentation says",
               "user-supplied Python functions and the radial-basis solve are not judged"]

VAL = ["get_value", "get_simple_parameter_values", "get_const_parameter_values", "get_network_state", "downcast_internal_state_mut", "downcast_internal_state_ref",
       "downcast_variable_config_ref", "inverse_hydropower_calculation", "is_leap_year", "hydropower_calculation"]
MAC = [(r"get_value\(((?:self|elem|last)\b(?:[^,()]|\([^,()]*\))*), p1\.(?:network, p1\.state|values)\)", r"V(\1)", 1),
       ("downcast_internal_state_mut(p2)", "MEM"), ("downcast_internal_state_ref(p2)", "MEM"), ("p1.timestep", "ts")]
NAMES = r"^(compute|before|after|setup)$"
SKIP = r"PyClass|PyFunc|test_utils|::tests"


def short(t):
    return t.s.replace("&", "").split("<")[0].split("::")[-1]


def key(b):
    """type, trait and method, with the type arguments that tell implementations apart"""
    t = b.self_ty.peel()
    ts = [short(x) for x in b.trait_args() if x.s != t.s]
    own = [short(x) for x in t.args if x.k != "param"]
    return f"{t.d.split('::')[-1]}{'<' + ','.join(own) + '>' if own else ''} {b.trait.split('::')[-1]}{'<' + ','.join(ts) + '>' if ts else ''}::{b.name}"


def bodies(P):
    import re
    out = []
    for b in P.fns(r"(compute|before|after|setup)$"):
        if b.derived or b.kind == "closure" or not b.self_ty or not b.trait or "parameters" not in b.self_ty.d or re.search(SKIP, b.p + b.self_ty.s):
            continue
        if "Builder" in b.self_ty.s or not re.match(NAMES, b.name) or b.file.endswith("rbf.rs") if hasattr(b, "file") else False:
            continue
        out.append(b)
    return out


SPECS = [dict(key=key, fn=bodies, opaque=VAL, macros=MAC, trait=True), dict(part="C33")]


def run(P, R):
    specs.run(P, R, "C33", SPECS)
    R.floor("behaviour", 150)
