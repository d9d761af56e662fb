"""P51 controllers are activated with all their interfaces or not at all."""
from engine import terms as T
from engine import cm as C
from engine.cm import Ctl, UNCONF, INACTIVE, ACTIVE, FINAL, NAMES, lst, strs, events
from engine.util import *

KINDS = ("exported_state", "reference")


STRICT = {"BEST_EFFORT": 1, "STRICT": 2}     # controller_manager_msgs/srv/SwitchController


def exports(ev, name):
    """what is left available of the controller's exports"""
    out = {}
    for e in ev:
        if e[0] == "export" and e[2] == T.c(name):
            for k in KINDS:
                if k in e[1]:
                    out[k] = not e[1].endswith("unavailable")
    return out


def of(e, n):
    if e[0] in ("assign", "release", "chained", "update", "wait", "prepare") and e[1] == n:
        return True
    if e[0] in ("node", "res") and len(e) > 2 and e[2] == n:
        return True
    return e[0] in ("export",) and e[2] == T.c(n)


def run(ctx):
    db = ctx.db
    ctx.rule("Activation and deactivation of controllers are interpreted abstractly over requests with plain and chainable controllers, with every outcome of claiming each interface, of each transition (including exceptions) and of each hardware mode switch; "
             "the order of claims, assignment, activation and release and what remains claimed or available at the end is compared per path.")
    ctx.assumption("which interfaces a controller requires is decided by P34, the transitions a controller may take by its node's lifecycle")
    fa, fd = db.one(C.CM + "activate_controllers"), db.one(C.CM + "deactivate_controllers")
    WA, WD = where(fa), where(fd)

    def setup(I, s):
        I.wr(s, ("fld", C.SWITCH, "activate_command_interface_request"), strs("requested"))
        I.wr(s, ("fld", C.SWITCH, "deactivate_command_interface_request"), strs("other"))

    def activation(label, ctls, req, strictness, handle=True, claimed=None, avail=None):
        by = {c.name: c for c in ctls}
        I, outs = C.run(ctx, "activate_controllers", ctls, {0: ("loc", C.RTLIST), 1: strs(*req), 2: T.c(STRICT[strictness])}, setup, HANDLE_EXC=handle, claimed=claimed)
        for k, s, v in outs:
            ev = events(s)
            thrown = any(str(e[-1]).startswith("throw") for e in ev if e[0] == "res")
            what = f"{label} {strictness}"
            if k != "ret":
                ctx.check(not handle and thrown, "an exception of a controller does not leave the activation", WA, f"{what}: {v}", "a-escape")
                continue
            fin = dict(s.tags["st"])
            failed, activated, stopcmd = [], [], []
            unclear = False
            for e in ev:
                if e[0] == "assign":
                    for x in e[3]:
                        if not (x[0] == "vec"):
                            unclear = True
            if unclear:
                ctx.undecided(what, "assigned interfaces are not tracked")
                continue
            for n in req:
                c = by.get(n)
                if c is None:
                    continue
                mine = [(i, e) for i, e in enumerate(ev) if of(e, n)]
                w = f"{what}: {n} (claims {[(e[1], e[2][1]) for e in ev if e[0] == 'claim']})"
                act = [i for i, e in mine if e[0] == "node" and e[1] == "activate"]
                asg = [(i, e) for i, e in mine if e[0] == "assign"]
                ctx.check(len(act) <= 1 and len(asg) <= 1, "each controller is activated once", WA, w, "a-once")
                end = None
                if act:
                    ctx.check(len(asg) == 1 and asg[0][0] < act[0], "a controller is activated only after it was given its interfaces", WA, w, "a-assign")
                    r = [e[3] for i, e in mine if e[0] == "res" and e[1] == "activate"]
                    end = r[0] if r else None
                if asg:
                    got = [[x[1] for x in a[1]] for a in asg[0][1][3]]
                    exp = [["loan of " + x for x in c.cmd], ["loan of " + x for x in c.st]]
                    ctx.check(got == exp, "a controller is given exactly the interfaces it requires, in order", WA, f"{w}: {got}", "a-exact")
                    names = [e[2][1] for e in ev[:asg[0][0]] if e[0] == "claim"]
                    ctx.check(all(names.count(x) == 1 for x in c.cmd), "each command interface is claimed once", WA, w, "a-claims")
                    ctx.check(act, "a controller given its interfaces is activated", WA, w, "a-noact")
                taken = [x for x in c.cmd for e in ev if e[0] == "claimed" and e[1] == T.c(x) and e[2] is True]
                if claimed is not None:
                    taken = [x for x in c.cmd if x in claimed]
                bad = taken or any(e[0] == "res" and e[1] == "claim" and e[2][1] in c.cmd + c.st for e in ev)
                if bad:
                    ctx.check(not act and not asg, "a controller whose interfaces cannot all be claimed is not activated", WA, w, "a-partial")
                else:
                    ctx.check(act, "a controller whose interfaces are available is activated", WA, w, "a-missing")
                if taken and claimed is None:
                    ctx.check(not [e for e in ev if e[0] == "claim" and e[2][1] in taken], "an interface in use is not claimed again", WA, w, "a-inuse")
                if act:
                    pre = {e[2] for e in ev[:act[0]] if e[0] == "reset" and e[1] == n}
                    ctx.check({"exec", "per"} <= pre, "statistics start anew with the activation", WA, f"{w}: reset {sorted(pre)}", "a-stats")
                    ctx.check("last" in pre, "the time of the last update is reset before the activation", WA, w, "a-last")
                if end == ACTIVE:
                    activated.append(n)
                else:
                    failed.append(n)
                rel = [i for i, e in mine if e[0] == "release"]
                if act and end != ACTIVE:
                    ctx.check(rel and rel[-1] > act[0], "a controller that failed to activate gives its interfaces back", WA, f"{w}: activation ended {end}", "a-release")
                    stopcmd += c.cmd
                ex = exports(ev, n)
                if c.chainable:
                    if fin[n] == ACTIVE and end == ACTIVE and not rel:
                        ctx.check(all(ex.get(q) for q in KINDS), "the exports of an active chainable controller are available", WA, f"{w}: {ex}", "a-export-on")
                    elif fin[n] != ACTIVE and not (c.state == ACTIVE):
                        ctx.check(not any(ex.values()), "the exports of a controller that was not activated are unavailable", WA, f"{w}: {ex}, ended {NAMES.get(fin[n], fin[n])}", "a-export-off")
                    if act:
                        ctx.check(all(exports(ev[:act[0]], n).get(q) for q in KINDS), "the exports of a chainable controller are available before controllers are activated", WA, w, "a-export-before")
                else:
                    ctx.check(not ex, "only chainable controllers have exports", WA, f"{w}: {ex}", "a-export-none")
            others = [e for e in ev if any(of(e, c.name) for c in ctls if c.name not in req)]
            ctx.check(not others, "no other controller is touched by an activation", WA, f"{what}: {others[:2]}", "a-others")
            mode = [(e[1], [lst(a) for a in e[2]]) for e in ev if e[0] == "mode"]
            if any(x is None for _, a in mode for x in a):
                ctx.undecided(what, f"mode switch arguments {mode}"[:150])
                continue
            if strictness == "STRICT" and failed:
                for n in activated:
                    c = by[n]
                    de = [i for i, e in enumerate(ev) if e[0] == "node" and e[1] == "deactivate" and e[2] == n]
                    ctx.check(len(de) == 1, "with strict switching a failed activation stops the controllers activated with it", WA, f"{what}: {n} stays active though {failed} failed", "a-strict")
                ctx.check(mode and mode[0][0] == "prepare" and all(not a[0] and a[1] == ["requested"] for _, a in mode), "with strict switching a failed activation takes the whole mode switch back", WA, f"{what}: {mode}", "a-strict-mode")
            else:
                de = [e for e in ev if e[0] == "node" and e[1] == "deactivate"]
                ctx.check(not de, "controllers stay active unless a strict switch failed", WA, f"{what}: {de}", "a-keep")
                if stopcmd:
                    ctx.check(mode and mode[0][0] == "prepare" and all(not a[0] and sorted(set(a[1])) == sorted(set(stopcmd)) for _, a in mode), "the hardware mode of the failed controllers is taken back", WA, f"{what}: {mode}, failed {stopcmd}", "a-mode")
                else:
                    ctx.check(all(not a[0] and not a[1] for _, a in mode), "the hardware mode is left alone if no activated controller failed", WA, f"{what}: {mode}", "a-nomode")
            pr = [e for e in ev if e[0] == "res" and e[1] == "prepare"]
            pf = [e for e in mode if e[0] == "perform"]
            if mode:
                ctx.check(bool(pf) == bool(pr and pr[-1][2]), "a mode switch is performed exactly if it was prepared", WA, f"{what}: {mode} {pr}", "a-perform")

    def deactivation(label, ctls, req, handle=True):
        by = {c.name: c for c in ctls}
        I, outs = C.run(ctx, "deactivate_controllers", ctls, {0: ("loc", C.RTLIST), 1: strs(*req)}, setup, HANDLE_EXC=handle)
        for k, s, v in outs:
            ev = events(s)
            thrown = any(str(e[-1]).startswith("throw") for e in ev if e[0] == "res")
            if k != "ret":
                ctx.check(not handle and thrown, "an exception of a controller does not leave the deactivation", WD, f"{label}: {v}", "d-escape")
                continue
            if not handle and thrown:
                ctx.bad("an exception of a controller is passed on when configured so", WD, label, "d-swallow")
            for c in ctls:
                n = c.name
                mine = [(i, e) for i, e in enumerate(ev) if of(e, n)]
                de = [i for i, e in mine if e[0] == "node"]
                w = f"{label}: {n}"
                if n not in req or c.state != ACTIVE:
                    ctx.check(not mine, "only requested active controllers are touched by a deactivation", WD, f"{w}: {[e[:3] for _, e in mine]}", "d-others")
                    continue
                ctx.check(len(de) == 1 and ev[de[0]][1] == "deactivate", "each requested active controller is deactivated once", WD, w, "d-once")
                if len(de) != 1:
                    continue
                r = [e[3] for i, e in mine if e[0] == "res" and e[1] == "deactivate"]
                if not r or str(r[0]).startswith("throw"):
                    continue
                rel = [i for i, e in mine if e[0] == "release"]
                ctx.check(len(rel) >= 1 and rel[0] > de[0], "a deactivated controller gives its interfaces back, whichever state it ended in", WD, f"{w} ended {r[0]}", "d-release")
                ex = exports(ev, n)
                if c.chainable:
                    ctx.check(all(ex.get(q) is False for q in KINDS), "the exports of a deactivated chainable controller become unavailable", WD, f"{w} ended {r[0]}: {ex}", "d-export")
                    ch = [e[3] for i, e in mine if e[0] == "chained"]
                    ctx.check(ch and ch[-1] == T.c(False), "a deactivated chainable controller leaves the chained mode", WD, f"{w}: {ch}", "d-chained")
                else:
                    ctx.check(not ex, "only chainable controllers have exports", WD, f"{w}: {ex}", "d-export-none")
            ctx.check(not [e for e in ev if e[0] in ("mode", "claim")], "a deactivation claims nothing and does not switch modes", WD, label, "d-mode")

    A = lambda n, **kw: Ctl(n, INACTIVE, **kw)
    a, b = A("a", cmd=["x", "x2"], st=["s"]), A("b", cmd=["y"], st=["t"])
    ch = A("h", cmd=["z"], st=["u"], chainable=True)
    def job(f, *a, **k):
        return (f"{f.__name__} {a[0]}", lambda: f(*a, **k), ())

    jobs = []
    for st in ("STRICT", "BEST_EFFORT"):
        jobs += [job(activation, "one", [a, b], ["a"], st), job(activation, "chainable", [ch, b], ["h"], st),
                 job(activation, "two", [A("a", cmd=["x"]), A("b", cmd=["y"]), Ctl("o", ACTIVE, cmd=["w"])], ["a", "b"], st),
                 job(activation, "chain", [ch, A("l", cmd=["h/ref"], st=["t"])], ["h", "l"], st, claimed=()),
                 job(activation, "leader first", [A("l", cmd=["h/ref"]), A("h", cmd=["z"], chainable=True)], ["l", "h"], st, claimed=()),
                 job(activation, "conflict", [A("a", cmd=["x"]), A("b", cmd=["x"], chainable=True)], ["a", "b"], st, claimed=("x",)),
                 job(activation, "unknown", [A("a", cmd=["x"])], ["q", "a"], st),
                 job(activation, "several states", [A("a", cmd=["x"], st=["s", "s2", "s3"], throws=False, chainable=True)], ["a"], st, claimed=()),
                 job(activation, "nothing", [Ctl("a", ACTIVE, cmd=["x"])], [], st),
                 job(activation, "no interfaces", [A("a"), A("b", chainable=True)], ["a", "b"], st),
                 job(activation, "unhandled", [A("a", cmd=["x"], st=["s"], chainable=True)], ["a"], st, handle=False),
                 job(activation, "three", [A("a", cmd=["x"], throws=False), A("b", throws=False, chainable=True), A("c", cmd=["y"], throws=False)], ["c", "a", "b"], st, claimed=())]
    D = lambda n, **kw: Ctl(n, ACTIVE, **kw)
    jobs += [job(deactivation, "one", [D("a", cmd=["x"]), D("b", cmd=["y"])], ["a"]), job(deactivation, "chainable", [D("h", cmd=["z"], chainable=True, chained=True), D("b", cmd=["h/ref"])], ["b", "h"]),
             job(deactivation, "mixed", [D("a"), A("b", chainable=True), Ctl("c", UNCONF), D("h", chainable=True)], ["a", "b", "c", "h", "q"]), job(deactivation, "nothing", [D("a")], []),
             job(deactivation, "unhandled", [D("a", cmd=["x"]), D("h", chainable=True)], ["h", "a"], handle=False), job(deactivation, "three", [D("a"), D("b", chainable=True), D("c", chainable=True)], ["c", "b", "a"])]
    ctx.pmap(jobs)
