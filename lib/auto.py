"""Rule modules that judge every function of a part of the code base against its reviewed decision table."""
import specs

EXPLAIN = ("Every function of the parts of the code listed under `facts` is turned into a decision table by path-sensitive value-flow "
           "analysis of its MIR: each value it returns, each write and each call that acts on something, with the conditions under which it "
           "happens. Private helpers, closures, accessors and new code are expanded; named operations are judged by their own tables. The "
           "table must equal the reviewed specification: same effects and values, under the same conditions (compared as Boolean functions). ")
ASSUMPTIONS = ["a loop over a collection is judged by one generic iteration", "library functions (std, chrono, csv, hdf5, ndarray, solver libraries) do what their documentation says",
               "which error value is returned, log messages and panic texts are not judged"]


def make(g, prop, floor, what="", skip="", more=()):
    """fills a rule module: every function of the property's part of the code base, plus hand-written entries"""
    sp = [dict(part=prop)] + list(more)
    g["SPECS"] = sp
    g["EXPLAIN"] = EXPLAIN + what
    g["ASSUMPTIONS"] = ASSUMPTIONS + ([skip] if skip else [])

    def run(P, R):
        specs.run(P, R, prop, sp)
        n = getattr(R, "functions", 0)
        if n < floor:
            R.ob("behaviour", "floor(functions)", False, f"only {n} of the functions this property judges were found, at least {floor} expected", "")
    g["run"] = run
