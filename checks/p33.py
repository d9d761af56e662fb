"""P33 failed hardware stops the controllers using it."""
from engine import terms as T
from engine import cm as C
from engine.cm import Ctl, UNCONF, INACTIVE, ACTIVE, lst, strs, events
from engine.util import *

HR = "hardware_interface::return_type"


def run(ctx):
    db = ctx.db
    ctx.rule("The manager's cyclic read and write are interpreted abstractly for every result of the hardware, with controllers using none, one or several of the failed components; the controllers deactivated, the hardware mode change and their order "
             "are compared with the controllers recorded for the failed components. The mode change itself is interpreted over controllers with every kind of interface requirement.")
    ctx.assumption("which components failed is decided by P22, deactivation by P51; the users of a component are those recorded at activation")

    def cyc(op, res, failed, users, ctls, label, stub=True):
        W = where(db.one(C.CM + op))
        by = {c.name: c for c in ctls}

        def hook(I, s, call):
            if call.fq == C.RM + op:
                I.ev_(s, "rm", op, tuple(call.args))
                return [(s, ("rec", "hardware_interface::HardwareReadWriteStatus", (("result", ("enum", f"{HR}::{res}", I.hrt[res])), ("failed_hardware_names", strs(*failed)))))]
            if call.fq == C.RM + "get_cached_controllers_to_hardware" and T.isc(call.args[0]):
                return [(s, strs(*users.get(call.args[0][1], ())))]
            return None
        stubs = {"deactivate_controllers": True, "perform_hardware_command_mode_change": True, "activate_controllers": True, "manage_switch": True}
        I, outs = C.run(ctx, op, ctls, {0: ("sym", "time"), 1: ("sym", "period")}, None, stubs=stubs, hooks=[hook])
        for k, s, v in outs:
            ev = events(s)
            what = f"{label}: {op} returns {res} for {failed}"
            if k != "ret":
                ctx.bad("a hardware failure does not stop the control loop", W, f"{what}: {v}", f"{op}-escape")
                continue
            rm = [e for e in ev if e[0] == "rm"]
            ctx.check(len(rm) == 1 and rm[0][2] == (("sym", "time"), ("sym", "period")), f"the hardware is accessed once per cycle with the cycle's time and period", W, what, f"{op}-once")
            calls = [(e[1], e[2]) for e in ev if e[0] == "call"]
            names = [n for n, _ in calls]
            exp = []
            if res == "ERROR" or (res == "DEACTIVATE" and op == "read"):
                exp = [c for h in failed for c in users.get(h, ())]
            elif res == "DEACTIVATE":
                exp = [c for h in failed for c in users.get(h, ()) if c in by and by[c].cmd and by[c].ctype != "NONE"]
            de = [lst(a[1]) for n, a in calls if n == "deactivate_controllers"]
            pm = [(lst(a[1]), lst(a[2])) for n, a in calls if n == "perform_hardware_command_mode_change"]
            if any(x is None for x in de) or any(None in x for x in pm):
                ctx.undecided(what, "lists are not tracked")
                continue
            got = [x for l in de for x in l]
            if res == "OK":
                ctx.check(not calls, "nothing is switched while the hardware works", W, f"{what}: {names}", f"{op}-ok")
                continue
            if set(exp) - set(got):
                ctx.bad("all controllers using failed hardware are deactivated in the same cycle", W, f"{what}: {sorted(set(exp) - set(got))} stay active; deactivated {got}", f"{op}-{res}-stop")
            else:
                ctx.ok("all controllers using failed hardware are deactivated in the same cycle", W)
            ctx.check(set(got) <= set(exp) | {"gone"}, "no controller is deactivated for hardware it does not use", W, f"{what}: {sorted(set(got) - set(exp))}", f"{op}-{res}-others")
            ctx.check(not {"activate_controllers", "manage_switch"} & set(names), "failing hardware activates no controller", W, f"{what}: {names}", f"{op}-act")
            if exp:
                ctx.check(pm and all(not a for a, _ in pm) and {x for _, b in pm for x in b} == set(got), "the hardware is told which controllers stop", W, f"{what}: {pm}", f"{op}-mode")
                if pm and de:
                    ctx.check(names.index("perform_hardware_command_mode_change") < names.index("deactivate_controllers"), "the hardware mode is switched before the controllers are deactivated", W, what, f"{op}-order")

    def mode(label, ctls, start, stop, avail):
        W = where(db.one(C.CM + "perform_hardware_command_mode_change"))
        by = {c.name: c for c in ctls}
        I, outs = C.run(ctx, "perform_hardware_command_mode_change", ctls, {0: ("loc", C.RTLIST), 1: strs(*start), 2: strs(*stop), 3: T.c("update")}, None, avail_cmd=avail)

        def ifs(names):
            out = []
            for n in names:
                c = by.get(n)
                if c is None or c.ctype == "NONE":
                    continue
                out += list(avail) if c.ctype == "ALL" else list(c.cmd)
            return out
        es, et = set(ifs(start)), set(ifs(stop))
        for k, s, v in outs:
            ev = events(s)
            what = f"{label}: start {start}, stop {stop}"
            if k != "ret":
                ctx.bad("a hardware mode change does not stop the control loop", W, f"{what}: {v}", "mode-escape")
                continue
            ms = [(e[1], [lst(x) for x in e[2]]) for e in ev if e[0] == "mode"]
            if any(x is None for _, a in ms for x in a):
                ctx.undecided(what, "interfaces are not tracked")
                continue
            if not es and not et:
                ctx.check(not any(a[0] or a[1] for _, a in ms), "without command interfaces to start or stop no mode is switched", W, f"{what}: {ms}", "mode-empty")
                continue
            ctx.check(ms and ms[0][0] == "prepare", "a mode switch is prepared first", W, f"{what}: {ms}", "mode-prepare")
            for n, a in ms:
                ctx.check(set(a[0]) == es and set(a[1]) == et, "the hardware is told exactly the command interfaces of the controllers that start and stop", W, f"{what}: {n} start {sorted(set(a[0]))}, stop {sorted(set(a[1]))}, expected {sorted(es)}, {sorted(et)}", "mode-args")
            pr = [e[2] for e in ev if e[0] == "res" and e[1] == "prepare"]
            ctx.check(len([1 for n, _ in ms if n == "perform"]) == (1 if pr and pr[0] else 0), "a mode switch is performed exactly if it was prepared", W, f"{what}: {ms}", "mode-perform")

    jobs = []
    base = lambda: [Ctl("a", cmd=["x"]), Ctl("b", cmd=["y"]), Ctl("s", st=["t"], ctype="NONE"), Ctl("i", INACTIVE, cmd=["x"]), Ctl("z", cmd=["w"], is_async=True)]
    U = {"hw0": ("a",), "hw1": ("b", "s"), "hw2": ("s",), "hw3": (), "hw4": ("gone", "a"), "hw5": ("a", "b"), "hw6": ("z",), "hw7": ("z", "a")}
    for op in ("read", "write"):
        for res in ("OK", "ERROR", "DEACTIVATE"):
            for failed in ([], ["hw0"], ["hw1"], ["hw2"], ["hw3"], ["hw4"], ["hw0", "hw1"], ["hw5", "hw0"], ["hw2", "hw3", "hw5"], ["hw6"], ["hw7", "hw1"]):
                if res == "OK" and failed:
                    continue
                u = dict(U)
                if res != "DEACTIVATE" or op == "read":
                    u["hw4"] = ("a",)
                jobs.append((f"{op} {res} {failed}", cyc, (op, res, failed, u, base(), "controllers a, b, s")))
    av = ["x", "y", "z"]
    kinds = [Ctl("a", cmd=["x"]), Ctl("b", cmd=["y", "z"]), Ctl("all", ctype="ALL"), Ctl("none", ctype="NONE", cmd=["x"]), Ctl("e")]
    for start, stop in (([], ["a"]), (["b"], ["a"]), (["b"], []), (["all"], ["none"]), ([], ["all"]), ([], ["e"]), ([], []), (["gone"], ["a", "gone"]), (["a", "e"], ["b", "none"]), (["none"], [])):
        jobs.append((f"mode {start} {stop}", mode, ("mode change", kinds, start, stop, av)))
    ctx.pmap(jobs)
