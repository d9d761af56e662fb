"""P20 interface availability follows the hardware lifecycle."""
from engine import terms as T
from engine import rm as R
from engine.util import *
from engine.hw import UNKNOWN, UNCONF, INACTIVE, ACTIVE, FINAL, NAMES, num


def names(v):
    """the strings of a concrete list, or None"""
    if v is not None and v[0] == "vec" and all(x[0] == "c" for x in v[1]):
        return [x[1] for x in v[1]]
    return None


def run(ctx):
    ctx.rule("State requests, cyclic reads and writes and the shutdown of all components are interpreted abstractly with every outcome of every component operation "
             "(including exceptions); afterwards the lists of available command and state interfaces must hold, for every component, all of its interfaces if it is "
             "inactive or active and none otherwise, without duplicates, and those of the other components must be unchanged.")
    ctx.assumption("components keep the interfaces they exported; before the operation availability matches the lifecycle states")
    find = lambda n: where(ctx.db.find(R.RM + n)[0]) if ctx.db.find(R.RM + n) else n

    def lists(I, s, what):
        out = []
        for f in ("available_command_interfaces_", "available_state_interfaces_"):
            v = names(R.final(I, s, f))
            if v is None:
                ctx.undecided(what, f"{f} is {T.show(R.final(I, s, f))[:200]}")
                return None
            out.append(v)
        return out

    def expect(ctxargs, comps, got, states, dead=()):
        W, what, key = ctxargs
        for kind, lst, attr in (("command", got[0], "cmd"), ("state", got[1], "st")):
            ctx.check(len(set(lst)) == len(lst), "no interface is listed twice as available", W, f"{what}: {lst}", f"{key}-{kind}-twice")
            for c in comps:
                mine = set(getattr(c, attr))
                if not mine:
                    continue
                have = mine & set(lst)
                st = states[c.name]
                if st in (INACTIVE, ACTIVE) and c.name not in dead:
                    ctx.check(have == mine, f"the {kind} interfaces of a configured component are available", W, f"{what}: {c.name} is {NAMES[st]}, available: {lst}", f"{key}-{kind}-missing")
                else:
                    ctx.check(not have, f"the {kind} interfaces of a component that is not configured or failed are unavailable", W,
                              f"{what}: {c.name} is {NAMES[st]}, available: {lst}", f"{key}-{kind}-left")
            ctx.check(set(lst) <= {x for c in comps for x in getattr(c, attr)}, "only existing interfaces become available", W, f"{what}: {lst}", f"{key}-{kind}-foreign")

    def comps_of(kind, cur):
        return [R.Comp("system", "hw1", cmd=("c1", "d1"), st=("s1", "t1")),
                R.Comp(kind, "hw0", state=cur, cmd=() if kind == "sensor" else ("c0", "d0"), st=("s0", "t0"), group="g")]

    def request(kind, cur, tgt):
        W = find("set_component_state")

        def setup(I, s):
            I.wr(s, ("sym", "tgt"), I.state_value(tgt))
        comps = comps_of(kind, cur)
        I, outs = R.run(ctx, "set_component_state", comps, {0: T.c("hw0"), 1: ("loc", ("sym", "tgt"))}, setup)
        for k, s, v in outs:
            if k != "ret":
                continue
            res = [f"{e[1]}: {e[3] if isinstance(e[3], str) else NAMES[e[3]]}" for e in R.events(s) if e[0] == "res"]
            what = f"{kind} in state {NAMES[cur]} asked for {NAMES[tgt]} ({', '.join(res) or 'nothing runs'})"
            got = lists(I, s, what)
            if got:
                expect((W, what, "request"), comps, got, dict(s.tags["st"]))

    def cyclic(op, kinds, first):
        W = find(op)
        comps = [R.Comp(k, f"hw{i}", cmd=() if k == "sensor" else (f"c{i}", f"d{i}"), st=(f"s{i}", f"t{i}"), throws=(i == first)) for i, k in enumerate(kinds)]
        I, outs = R.run(ctx, op, comps)
        for k, s, v in outs:
            if k != "ret":
                continue
            ev = R.events(s)
            res = {e[2]: e[3] for e in ev if e[0] == "res" and e[1] == op}
            what = f"{op} with outcomes {res}"
            got = lists(I, s, what)
            if not got:
                continue
            states = dict(s.tags["st"])
            dead = {n for n, r in res.items() if r not in ("OK",) and not (op == "write" and r == "DEACTIVATE")}
            expect((W, what, op), comps, got, states, dead)

    def stop(kind, cur):
        W = find("shutdown_components")
        comps = comps_of(kind, cur)
        I, outs = R.run(ctx, "shutdown_components", comps)
        for k, s, v in outs:
            if k != "ret":
                continue
            res = [f"{e[2]} {e[1]}: {e[3] if isinstance(e[3], str) else NAMES[e[3]]}" for e in R.events(s) if e[0] == "res"]
            what = f"shutdown of all components ({', '.join(res)})"
            got = lists(I, s, what)
            if got:
                expect((W, what, "shutdown"), comps, got, dict(s.tags["st"]))

    jobs = []
    for kind in ("actuator", "sensor", "system"):
        for cur in (UNCONF, INACTIVE, ACTIVE, FINAL):
            jobs.append((f"requests {kind} {NAMES[cur]}", lambda kind=kind, cur=cur: [request(kind, cur, t) for t in NAMES], ()))
        for cur in (UNCONF, ACTIVE):
            jobs.append((f"shutdown {kind}", stop, (kind, cur)))
    for op, kk in (("read", (("actuator", "sensor"), ("sensor", "system"), ("system", "system"), ("actuator", "actuator"))),
                   ("write", (("actuator", "system"), ("system", "system"), ("actuator", "actuator")))):
        for kinds in kk:
            for first in (0, 1):
                jobs.append((f"{op} {kinds}", cyclic, (op, kinds, first)))
    ctx.pmap(jobs)
