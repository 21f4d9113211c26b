"""Step order: interprocedural must-execute / ordering dataflow on MIR control-flow graphs."""
from facts import strip_generics, cname
from common import callee_is, each_of, sp
from terms import walk, Eval, show, real_guards, guards, switch_info
from order import Event, must, escape, order, incomplete_loops

EXPLAIN = ("For each of the three network step variants and the four model step variants, the control-flow graphs of the step "
           "function, its closures and every workspace helper below it are searched for a success path (error exits removed) that "
           "misses one of the phases, for a phase that can run before its predecessor, and for loops or iterator adapters that may "
           "skip an element. Phases are recognised by the resolved callee, so helpers, closures and loop forms do not matter.")


def events(P):
    E = {}
    def ev(n, *pats):
        E[n] = Event(P, n, callee_is(*pats))
    ev("simple parameters", r"ParameterCollection::compute_simple$")
    ev("node pre-solve update", r"node::Node::before$")
    ev("virtual storage pre-solve update", r"virtual_storage::VirtualStorageNode::before$")
    ev("general parameters (before)", r"ParameterCollection::before_general$")
    ev("solve", r"solvers::(Solver|MultiStateSolver)::solve$")
    ev("general parameters (after)", r"ParameterCollection::after_general$")
    ev("metric set save", r"MetricSet::save$")
    ev("network step", r"network::Network::(step|step_par|step_multi_scenario)$")
    ev("save recorders", r"network::Network::save_recorders$")
    ev("recorder save", r"recorders::Recorder::save$")
    ev("transfers", r"compute_inter_network_transfers$")
    ev("finalise metric sets", r"MetricSet::finalise$")
    ev("finalise recorders", r"recorders::Recorder::finalise$")
    def inc(body, st):
        pl = st[0]
        return any(isinstance(x, list) and x[0] == "f" and x[1] == "current_time_step_idx" for x in pl[1:]) and body.name != "setup"
    E["advance"] = Event(P, "advance time-step", lambda c: False, inc)
    return E


def run(P, R):
    E = events(P)
    R.rule("must", "every success path of the step function performs the phase (for every element it loops over)")
    R.rule("order", "a phase never runs before, or without, the phase it depends on")
    R.rule("complete", "no loop or iterator adapter around the phase can skip an element or stop early without an error")
    chain = ["simple parameters", "node pre-solve update", "virtual storage pre-solve update", "general parameters (before)",
             "solve", "general parameters (after)", "metric set save"]
    def check(root, names):
        for n in names:
            e = E[n]
            p = escape(P, root, e)
            R.ob("must", f"{strip_generics(root.p)}|{n}", p is None,
                 f"`{root.name}` has a success path without the phase '{n}'", root.loc(p[-1] if p and len(p) == 1 else (p[-2] if p else None)))
            bad = incomplete_loops(P, root, e)
            R.ob("complete", f"{strip_generics(root.p)}|{n}", not bad, "; ".join(sorted({f"{w} in {strip_generics(b.p)}" for b, k, w in bad})),
                 bad[0][0].loc(bad[0][1]) if bad else "")
        for x, y in zip(names, names[1:]):
            bad = order(P, root, E[x], E[y])
            R.ob("order", f"{strip_generics(root.p)}|{x} < {y}", not bad, "; ".join(sorted({w + " in " + strip_generics(b.p) for b, k, w in bad})),
                 bad[0][0].loc(bad[0][1]) if bad else "")
    roots = P.fns(r"^pywr_core::network::Network::(step|step_par|step_multi_scenario)$")
    for r in roots:
        check(r, chain)
    R.floor("must", 21, "network step variants x phases")
    for r in P.fns(r"^pywr_core::models::simple::Model::(step|step_multi_scenario)$"):
        check(r, ["network step", "save recorders", "advance"])
    for r in P.fns(r"^pywr_core::models::multi::MultiNetworkModel::(step|step_multi_scenario)$"):
        check(r, ["transfers", "network step", "save recorders", "advance"])
    for r in P.fns(r"^pywr_core::network::Network::save_recorders$"):
        check(r, ["recorder save"])
    for r in P.fns(r"^pywr_core::network::Network::finalise$"):
        check(r, ["finalise metric sets", "finalise recorders"])
    R.floor("must", 21 + 6 + 8 + 1 + 2)

    wiring(P, R, roots)
    run_loop(P, R)


def wiring(P, R, roots):
    R.rule("wiring", "each phase gets the step's own time-step and, for one scenario, that scenario's index, state, parameter "
           "states, metric-set states and solver - never another scenario's - and runs unconditionally")
    W = callee_is(r"ParameterCollection::(compute_simple|before_general|after_general)$", r"node::Node::before$",
                  r"VirtualStorageNode::before$", r"solvers::(Solver|MultiStateSolver)::solve$", r"MetricSet::save$")
    for root in roots:
        multi = root.name == "step_multi_scenario"
        par = {root.lty(i + 1).peel().d.split("::")[-1] or root.lty(i + 1).peel().s: i for i in range(root.nargs)}
        names = {}
        for i in range(root.nargs):
            t = root.lty(i + 1).peel()
            names[i] = t
        ts = next(i for i, t in names.items() if t.d.endswith("Timestep"))
        si = next(i for i, t in names.items() if t.k == "slice" and "ScenarioIndex" in t.s)
        st = next(i for i, t in names.items() if t.d.endswith("NetworkState"))
        for s in walk(P, root, W, depth=5, descend=lambda t: t.crate == "pywr_core" and not W({"p": t.p, "r": t.p})):
            n = cname(s.f)
            inst = f"{root.name}|{short_name(s.f)}"
            R.ob("wiring", inst + "|guard", not s.guards,
                 "phase only runs when " + ", ".join(f"{show(g[1])} is {sorted(g[2])}" for g in s.guards), s.loc)
            idxs = set()
            for i, t in enumerate(s.args):
                ty = param_ty(s, i)
                if ty is None:
                    continue
                d = ty.d.split("::")[-1]
                inst2 = f"{inst}|{d or ty.s}"
                if d == "Timestep":
                    R.ob("wiring", inst2, t == ("arg", ts), f"gets {show(t)} instead of the step's time-step", s.loc)
                elif d == "ScenarioIndex":
                    b, ix = each_of(t)
                    R.ob("wiring", inst2, b == ("arg", si), f"gets {show(t)} instead of the scenario being stepped", s.loc)
                    idxs.add(ix)
                elif d == "State" and ty.k == "adt":
                    b, ix = each_of(t)
                    R.ob("wiring", inst2, b is not None and b[0] == "f" and b[3] == "states" and b[1] == ("arg", st),
                         f"gets {show(t)} instead of this scenario's state", s.loc)
                    idxs.add(ix)
                elif d == "ParameterStates":
                    b, ix = each_of(t)
                    R.ob("wiring", inst2, b is not None and b[0] == "f" and b[3] == "parameter_internal_states",
                         f"gets {show(t)} instead of this scenario's parameter states", s.loc)
                    idxs.add(ix)
                elif d == "MetricSetState":
                    b, ix = each_of(t)
                    b2, ix2 = each_of(b) if b is not None else (None, None)
                    R.ob("wiring", inst2, b2 is not None and b2[0] == "f" and b2[3] == "metric_set_internal_states",
                         f"gets {show(t)} instead of this scenario's metric-set state", s.loc)
                    if b2 is not None:
                        idxs.add(ix2)
            idxs.discard(None)
            R.ob("wiring", inst + "|index", len(idxs) <= 1, f"per-scenario data is picked with different indices: {[show(x) for x in idxs]}", s.loc)
    R.floor("wiring", 60)


def short_name(f):
    return "::".join(strip_generics(f["p"]).split("::")[-2:])


def param_ty(s, i):
    """peeled type of argument i of the call"""
    a = s.ev.body.term(s.b)[2][i]
    if isinstance(a, list):
        # type of the operand place
        ty = s.ev.body.lty(a[0])
        for p in a[1:]:
            if p == "*":
                ty = ty.args[0] if ty.args else ty
            elif isinstance(p, list) and p[0] == "f":
                ty = s.ev.body.tys[p[3]]
            else:
                return None
        return ty.peel()
    return None


def run_loop(P, R):
    R.rule("advance", "the step reads the time-step at the current position and moves the position on by exactly one, once")
    R.rule("run", "a run ends successfully only when the time-steps are exhausted; every other error of a step is returned")
    steps = P.fns(r"^pywr_core::models::(simple::Model|multi::MultiNetworkModel)::(step|step_multi_scenario)$")
    NS = callee_is(r"network::Network::(step|step_par|step_multi_scenario)$")
    for r in steps:
        n = 0
        for q in helpers(P, r, NS):
            ev = Eval(P, q)
            for b, bb in enumerate(q.blocks):
              if not bb:
                continue
              for i, stt in enumerate(bb["s"]):
                pl = stt[0]
                if any(isinstance(x, list) and x[0] == "f" and x[1] == "current_time_step_idx" for x in pl[1:]):
                    n += 1
                    t = ev.rvalue(stt[1], b, i)
                    base = [x for x in (t[1] if t[0] == "phi" else [t])]
                    ok = all(x[0] == "op" and x[1] == "Add" and len(x[2]) == 2 and ("c", "1", "usize") in x[2]
                             and any(reads_pos(y) for y in x[2]) for x in base)
                    R.ob("advance", f"{sp(r)}|increment", ok, f"the position becomes {show(t)}", q.loc(b))
        for s in walk(P, r, NS, depth=4):
            for i, t in enumerate(s.args):
                ty = param_ty(s, i)
                if ty is not None and ty.d.endswith("::Timestep"):
                    ok = t[0] == "index" and reads_pos(t[2]) and any(c in show(t[1]) for c in ("timesteps",))
                    R.ob("advance", f"{sp(r)}|{cname(s.f)}|timestep", ok, f"steps {show(t)} instead of the time-step at the current position", s.loc)
        R.ob("advance", f"{sp(r)}|once", n == 1, f"{n} assignments of the position", r.loc())
    R.floor("advance", 12)
    runs = P.fns(r"^pywr_core::models::(simple::Model|multi::MultiNetworkModel)::run\w*_with_state$")
    from order import loops
    from terms import pruned_succ
    ST = callee_is(r"::(Model|MultiNetworkModel)::(step|step_multi_scenario)$")
    for r in runs:
        # the function with the stepping loop: the run itself, or a helper every successful run goes through
        here = [q for q in helpers(P, r, ST) if any(any(r2.term(b)[0] == "call" and ST(r2.term(b)[1]) for b in L) for r2 in (q,) for L in loops(P, q).values())]
        if r in here:
            here = [r]
        if len(here) != 1 or here[0] is not r and escape(P, r, Event(P, "run loop", lambda c, q=here[0]: P.body_of(c) is q)) is not None:
            R.undecided("run", f"{sp(r)}|loop", "no single stepping loop found in the run or its helpers", r.loc())
            continue
        q = here[0]
        ev = Eval(P, q, depth=1)
        succ = pruned_succ(P, q)
        R.ob("run", f"{sp(r)}|loop", True, "", q.loc())
        cut, cuts, shared = {}, 0, False
        for a in succ:
            cut[a] = list(succ[a])
            if q.term(a)[0] == "switch":
                _, labels, _ = switch_info(ev, a)
                for x in list(cut[a]):
                    if labels.get(x) == {"EndOfTimesteps"}:
                        cut[a].remove(x)
                        cuts += 1
                    elif "EndOfTimesteps" in (labels.get(x) or ()) and sum(1 for l in labels.values() if l != {"_"}) > 1:
                        shared = True       # other outcomes of a step are told apart, but not from the end
        if not cuts and not shared:
            R.undecided("run", f"{sp(r)}|exit", "the end of the time-steps is not recognised in the function with the stepping loop", q.loc())
            continue
        st, vis, out = [0], set(), None
        while st:
            x = st.pop()
            if x in vis:
                continue
            vis.add(x)
            if q.term(x)[0] == "return":
                out = x
            st.extend(cut.get(x, []))
        R.ob("run", f"{sp(r)}|exit", out is None, "the run can return success without having reached the end of the time-steps", q.loc())
    R.floor("run", 8)


def helpers(P, r, stop):
    """the function, its closures and the helpers of the same module tree it reaches"""
    out, st = [], [r]
    while st:
        q = st.pop()
        if q in out:
            continue
        out.append(q)
        for c in P.callees(q):
            if c.crate == "pywr_core" and "pywr_core::models" in c.p and c.name != "setup" and not stop({"p": c.p, "r": c.p}):
                st.append(c)
    return out


def reads_pos(t):
    return t[0] == "f" and t[3] == "current_time_step_idx"
