"""P32 a failing controller is stopped and its fallbacks take over."""
from engine import terms as T
from engine import cm as C
from engine.cm import Ctl, UNCONF, INACTIVE, ACTIVE, lst, events
from engine.util import *

STUBS = ("perform_hardware_command_mode_change", "deactivate_controllers", "activate_controllers", "manage_switch", "publish_activity_of_controllers", "publish_activity")


def show(x):
    return sorted(x)


def run(ctx):
    ctx.rule("One update cycle is interpreted abstractly over controllers whose updates return every result or raise, with and without chains, fallbacks and conflicting users of the fallbacks' interfaces; "
             "on every path the controllers deactivated, activated and the hardware mode change are compared with what the failing controllers require.")
    ctx.assumption("the deactivation, activation and mode change operations are decided by P31 and P51")
    for n in ("perform_hardware_command_mode_change", "deactivate_controllers", "activate_controllers"):
        ctx.db.one(C.CM + n)
    W = where(ctx.db.one(C.CM + "update"))

    def one(label, ctls, handle=True):
        by = {c.name: c for c in ctls}
        I, outs = C.run(ctx, "update", ctls, {}, None, stubs={n: True for n in STUBS}, HANDLE_EXC=handle)
        for k, s, v in outs:
            ev = events(s)
            res = {e[2]: e[3] for e in ev if e[0] == "res"}
            bad = [n for n, r in res.items() if r != "OK"]
            what = f"{label}: updates {res}"
            if k != "ret":
                if not handle and any(str(r).startswith("throw") for r in res.values()):
                    continue
                ctx.bad("an exception of a controller's update does not leave the control cycle", W, f"{what}: {v}", f"{label}-escape")
                continue
            if not handle and any(str(r).startswith("throw") for r in res.values()):
                ctx.bad("an exception of a controller's update is passed on when configured so", W, what, f"{label}-swallowed")
                continue
            if v[0] != "enum":
                ctx.undecided(what, T.show(v)[:150])
                continue
            ok = v[1].endswith("::OK")
            calls = [(e[1], e[2]) for e in ev if e[0] == "call"]
            names = [n for n, _ in calls]
            if not bad:
                ctx.check(ok, "a cycle without failures succeeds", W, what, f"{label}-ok")
                ctx.check(not {"deactivate_controllers", "activate_controllers", "perform_hardware_command_mode_change"} & set(names),
                          "nothing is switched when no controller failed", W, what, f"{label}-idle")
                continue
            ctx.check(not ok, "a cycle with a failing controller reports an error", W, what, f"{label}-result")
            stop = {x for n in bad for x in by[n].group}
            fb = {f for n in stop if n in by for f in by[n].fallbacks}
            users = {c.name for c in ctls if c.state == ACTIVE and any(set(c.cmd) & set(by[f].cmd) for f in fb if f in by)}
            de = [lst(a[1]) for n, a in calls if n == "deactivate_controllers"]
            ac = [lst(a[1]) for n, a in calls if n == "activate_controllers"]
            pm = [(lst(a[1]), lst(a[2])) for n, a in calls if n == "perform_hardware_command_mode_change"]
            if any(x is None for x in de + ac) or any(None in x for x in pm):
                ctx.undecided(what, "lists are not tracked")
                continue
            de1 = [x for l in de for x in l]
            ac1 = [x for l in ac for x in l]
            ctx.check(set(de1) >= stop, "the failing controllers and those depending on them are deactivated", W, f"{what}: expected {show(stop)}, deactivated {de1}", f"{label}-stop")
            ctx.check(set(de1) >= users, "controllers using the fallbacks' interfaces are deactivated", W, f"{what}: expected {show(users)}, deactivated {de1}", f"{label}-users")
            ctx.check(set(de1) <= stop | users, "no other controller is deactivated", W, f"{what}: expected {show(stop | users)}, deactivated {de1}", f"{label}-others")
            ctx.check(set(ac1) == fb, "exactly the fallbacks of the stopped controllers are activated", W, f"{what}: expected {show(fb)}, activated {ac1}", f"{label}-fallback")
            ctx.check(len(de1) == len(set(de1)) and len(ac1) == len(set(ac1)), "each controller is switched once", W, f"{what}: {de1} {ac1}", f"{label}-once")
            if pm:
                st, sp = {x for a, _ in pm for x in a}, {x for _, a in pm for x in a}
                ctx.check(st == fb and sp == set(de1), "the hardware is told which controllers start and stop", W, f"{what}: start {show(st)}, stop {show(sp)}", f"{label}-mode")
            else:
                ctx.bad("the hardware is told which controllers start and stop", W, what, f"{label}-nomode")
            if "activate_controllers" in names and "deactivate_controllers" in names:
                ctx.check(max(i for i, n in enumerate(names) if n == "deactivate_controllers") < min(i for i, n in enumerate(names) if n == "activate_controllers"),
                          "fallbacks are activated after the failing controllers were deactivated", W, what, f"{label}-order")
            if pm and "deactivate_controllers" in names:
                ctx.check(names.index("perform_hardware_command_mode_change") < names.index("deactivate_controllers"), "the hardware mode is switched before the controllers", W, what, f"{label}-modeorder")

    F = lambda *x: list(x)
    cases = [
        ("single", F(Ctl("a", cmd=["x"]), Ctl("b", cmd=["y"]))),
        ("fallback", F(Ctl("a", cmd=["x"], fallbacks=["f"]), Ctl("b", cmd=["y"]), Ctl("f", INACTIVE, cmd=["x"]))),
        ("chain", F(Ctl("a", cmd=["x"], group=["a", "b"], fallbacks=["f"]), Ctl("b", cmd=["a/r"], group=["b", "a"], fallbacks=["g"]), Ctl("f", INACTIVE, cmd=["x", "z"]), Ctl("g", INACTIVE, cmd=["w"]))),
        ("users", F(Ctl("a", cmd=["x"], fallbacks=["f", "g"]), Ctl("b", cmd=["z"], throws=False), Ctl("f", INACTIVE, cmd=["x", "z"]), Ctl("g", INACTIVE, cmd=["w"]), Ctl("c", cmd=["v", "w"], throws=False))),
        ("sharedfallback", F(Ctl("a", cmd=["x"], fallbacks=["f"]), Ctl("b", cmd=["y"], fallbacks=["f"]), Ctl("f", UNCONF, cmd=["x"]))),
        ("unknownfallback", F(Ctl("a", cmd=["x"], fallbacks=["nope"]), Ctl("b", cmd=["y"], throws=False))),
    ]
    ctx.pmap([(l, one, (l, c)) for l, c in cases] + [("passing on", one, ("passon", F(Ctl("a"), Ctl("b", throws=False)), False))])
