"""P23 mode switches are validated and reach every affected component."""
from engine import terms as T
from engine import rm as R
from engine.util import *
from engine.hw import UNKNOWN, UNCONF, INACTIVE, ACTIVE, FINAL, NAMES, num


def run(ctx):
    ctx.rule("Preparing and performing a command mode switch are interpreted abstractly over components in every lifecycle state, for requests naming interfaces of none, "
             "one or several components as well as unknown and unavailable ones, with every answer of every component: which components are asked, with which interfaces, "
             "and what is reported is compared with the request on every path.")

    def one(op, kinds, states, start, stop, avail=None):
        W = where(ctx.db.one(R.RM + op))
        comps = [R.Comp(k, f"hw{i}", state=states[i], cmd=() if k == "sensor" else (f"c{i}", f"d{i}"), st=(f"s{i}",), throws=False) for i, k in enumerate(kinds)]
        known = [x for c in comps for x in c.cmd]
        av = known if avail is None else avail

        def setup(I, s):
            I.wr(s, ("sym", "start"), R.strs(*start))
            I.wr(s, ("sym", "stop"), R.strs(*stop))
            R.put(I, s, "start_interfaces_buffer_", R.strs("old"))
            R.put(I, s, "stop_interfaces_buffer_", R.strs("old"))
            R.put(I, s, "available_command_interfaces_", R.strs(*av))
            m = ("vec", ())
            for x in known:
                m = ("mapset", m, T.c(x), ("sym", "if " + x))
            R.put(I, s, "command_interface_map_", m)
        I, outs = R.run(ctx, op, comps, {0: ("loc", ("sym", "start")), 1: ("loc", ("sym", "stop"))}, setup)
        what0 = f"{op} starting {list(start)} and stopping {list(stop)} with components {[(c.name, NAMES[c.state]) for c in comps]}"
        bogus = op.startswith("prepare") and any(x not in av or x not in known for x in start + stop)
        yes = False
        for k, s, v in outs:
            if k != "ret":
                ctx.bad("a mode switch request does not raise", W, f"{what0}: {v}", f"{op}-raise")
                continue
            ev = R.events(s)
            asked = {}
            for e in ev:
                if e[0] == "mode":
                    if e[2] in asked:
                        ctx.bad("a component is asked once", W, f"{what0}: {e[2]}", f"{op}-twice")
                    asked[e[2]] = e
            res = {e[2]: e[3] for e in ev if e[0] == "res"}
            what = f"{what0}, answers {res}"
            if v[0] != "c":
                ctx.undecided(what, T.show(v)[:200])
                continue
            ok = v[1] is True
            yes = yes or ok
            if bogus:
                ctx.check(not asked, "no component is asked when an interface does not exist or is unavailable", W, what, f"{op}-bogus-asked")
                ctx.check(not ok, "a request with unknown or unavailable interfaces is rejected", W, what, f"{op}-bogus-ok")
                continue
            allow = [b for a, b in s.facts.items() if has_sub(a, lambda t: t[0] == "fld" and "inactive_hardware" in str(t[2]))]
            allowed = allow[0] if allow else None
            good = True
            for c in comps:
                st, sp = [x for x in start if x in c.cmd], [x for x in stop if x in c.cmd]
                e = asked.get(c.name)
                if not st and not sp:
                    ctx.check(e is None, "a component without affected interfaces is not asked", W, f"{what}: {c.name}", f"{op}-unaffected")
                    continue
                if c.state not in (INACTIVE, ACTIVE):
                    ctx.check(e is None, "a component that is neither active nor inactive is not asked", W, f"{what}: {c.name}", f"{op}-state")
                    good = False
                    continue
                if c.state == INACTIVE and st and allowed is not True:
                    if allowed is False:
                        ctx.check(e is None, "an inactive component is not asked to start interfaces unless that is allowed", W, f"{what}: {c.name}", f"{op}-inactive")
                        good = False
                        continue
                    if e is not None:
                        ctx.bad("an inactive component is not asked to start interfaces unless that is allowed", W, f"{what}: {c.name}", f"{op}-inactive")
                        continue
                if e is None:
                    ctx.check(not ok, "a mode switch succeeds only after asking every affected component", W, f"{what}: {c.name} is not asked", f"{op}-asked")
                    ctx.check(not op.startswith("perform") or any(x.state != ACTIVE for x in comps), "a component that refuses does not keep another one from performing the switch",
                              W, f"{what}: {c.name} is not asked", f"{op}-skipped")
                    good = False
                    continue
                got = [lists(a) for a in e[4][:2]]
                if None in got:
                    ctx.undecided(what, f"arguments {[T.show(a)[:80] for a in e[4]]}")
                else:
                    ctx.check(sorted(got[0]) == sorted(st) and sorted(got[1]) == sorted(sp), "a component is asked about exactly its own interfaces to start and stop", W,
                              f"{what}: {c.name} is asked to start {got[0]} and stop {got[1]}", f"{op}-args")
                if res.get(c.name) != "OK":
                    good = False
            ctx.check(ok == good, "a mode switch succeeds exactly if every affected component may switch and accepts", W, f"{what}: reports {ok}", f"{op}-result")
        if not yes and not bogus and all(st == ACTIVE for st in states):
            ctx.undecided(what0, "no successful path")

    def lists(a):
        if a[0] == "loc":
            return None
        return [x[1] for x in a[1]] if a[0] == "vec" and all(x[0] == "c" for x in a[1]) else None

    REQ = [((), ()), (("c0",), ()), ((), ("c0",)), (("c0",), ("d0",)), (("d1", "c0"), ("c1",)), (("c0", "d0"), ("c1", "d1")), (("c1",), ("c0", "d0"))]
    jobs = []
    for op in ("prepare_command_mode_switch", "perform_command_mode_switch"):
        for kinds in (("actuator", "system"), ("system", "system"), ("actuator", "actuator")):
            for st0 in NAMES:
                jobs.append((f"{op} {kinds} {NAMES[st0]}", lambda op=op, kinds=kinds, st0=st0: [one(op, kinds, (st0, st1), a, b) for st1 in NAMES for a, b in REQ], ()))
        jobs.append((f"{op} sensor", one, (op, ("sensor", "system"), (ACTIVE, ACTIVE), ("c1",), ())))
    op = "prepare_command_mode_switch"
    for st in (("c0", "nope"), ("nope",)):
        jobs.append((f"{op} unknown", lambda st=st: [one(op, ("actuator", "system"), (ACTIVE, ACTIVE), a, b) for a, b in ((st, ()), ((), st), (("c1",), st), (st, ("c1",)))], ()))
    for av in (("c0", "c1"), ()):
        jobs.append((f"{op} unavailable", lambda av=av: [one(op, ("actuator", "system"), (ACTIVE, ACTIVE), a, b, list(av)) for a, b in ((("d0",), ()), ((), ("d1",)), (("c0",), ("d1",)))], ()))
    ctx.pmap(jobs)
