#!/usr/bin/env python3
"""development aid: print (or with --write, store) the current decision tables of a property's functions for review"""
import sys, os, importlib
if os.environ.get("PYTHONHASHSEED") != "0":
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/lib/rules"]
sys.setrecursionlimit(20000)
import facts, specs
P = facts.Prog(os.environ.get("VP_CACHE", V + "/.cache") + "/facts")
prop = sys.argv[1]
m = importlib.import_module("rules." + prop.lower())
t = specs.write(P, prop, m.SPECS)
if "--write" in sys.argv:
    open(f"{V}/lib/rules/{prop.lower()}.spec", "w").write(t)
else:
    print(t)
