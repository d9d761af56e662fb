"""P31 a controller switch is carried out in safe order."""
from engine import terms as T
from engine import cm as C
from engine.cm import Ctl, UNCONF, INACTIVE, ACTIVE, lst, strs, events
from engine.util import *


class Switch(C.CmInterp):
    def on_write(self, s, loc, val, node):
        if loc == ("fld", C.SWITCH, "do_switch"):
            self.ev_(s, "do_switch", val)
        super().on_write(s, loc, val, node)

    def on_call(self, s, call):
        if call.name in ("notify_all", "notify_one"):
            self.ev_(s, "notify", call.name, bool(s.locks))
            return [(s, T.c(None))]
        return super().on_call(s, call)


def run(ctx):
    db = ctx.db
    ctx.rule("The execution of a pending switch is interpreted abstractly over requests with every combination of lists, every outcome of the hardware mode switch and of each chained mode change; the order and the arguments of the mode switch, "
             "deactivation, chaining, activation and completion are compared per path. The update cycle is interpreted with and without a pending switch.")
    ctx.assumption("activation and deactivation of the given controllers are decided by P51, the lists of the request by P29")
    W = where(db.one(C.CM + "manage_switch"))
    STUBS = {"deactivate_controllers": True, "activate_controllers": True}

    def switch(label, de, ac, to, frm, aif, dif, strictness, states):
        names = sorted(set(de + ac + to + frm) | {"o"})
        ctls = [Ctl(n, states.get(n, INACTIVE), chainable=n in to + frm, chained=n in frm) for n in names]

        def setup(I, s):
            for f, v in (("deactivate_request", de), ("activate_request", ac), ("to_chained_mode_request", to), ("from_chained_mode_request", frm),
                         ("activate_command_interface_request", aif), ("deactivate_command_interface_request", dif)):
                I.wr(s, ("fld", C.SWITCH, f), strs(*v))
            I.wr(s, ("fld", C.SWITCH, "strictness"), T.c(strictness))
            I.wr(s, ("fld", C.SWITCH, "do_switch"), T.c(True))
            s.tags["ev"] = ()
        I, outs = C.run(ctx, "manage_switch", ctls, {}, setup, interp=Switch, stubs=STUBS)
        if not any(e[0] == "mode" for k, s, v in outs for e in events(s)):
            ctx.bad("a pending switch switches the hardware mode", W, label, "perform")
        for k, s, v in outs:
            if k != "ret":
                ctx.bad("carrying out a switch does not raise", W, f"{label}: {v}", "escape")
                continue
            ev = events(s)
            idx = lambda p: [i for i, e in enumerate(ev) if p(e)]
            mode = idx(lambda e: e[0] == "mode")
            dea, act = idx(lambda e: e[:2] == ("call", "deactivate_controllers")), idx(lambda e: e[:2] == ("call", "activate_controllers"))
            chn = idx(lambda e: e[0] == "chained")
            done = idx(lambda e: e[0] == "do_switch")
            note = idx(lambda e: e[0] == "notify")
            what = f"{label}: {[e[1] if e[0] == 'call' else e[0] for e in ev if e[0] not in ('now', 'rtlist')]}"
            owns = [b for a, b in s.facts.items() if a[0] == "owns"]
            if owns and not owns[0]:
                ctx.check(not (mode + dea + act + chn + done + note), "a switch whose lists cannot be locked without waiting is left for a later cycle", W, what, "locked")
                continue
            ctx.check(len(mode) == 1 and ev[mode[0]][1] == "perform", "the hardware mode is switched once per switch", W, what, "mode-once")
            if not mode:
                continue
            args = [lst(x) for x in ev[mode[0]][2]]
            ctx.check(args == [aif, dif], "the hardware is told the interfaces to start and to stop", W, f"{what}: {args}, requested {[aif, dif]}", "mode-args")
            ok = [e[2] for e in ev if e[0] == "res" and e[1] == "perform"][0]
            falses = [i for i in done if ev[i][1] == T.c(False)]
            fin = I.read(s, ("fld", C.SWITCH, "do_switch"))
            ctx.check(fin == T.c(False) and falses, "a switch is finished in the cycle that carries it out", W, what, "finish")
            ctx.check(note and falses and (max(note) > max(falses) or ev[max(note)][2]), "the waiting caller is told after the switch was marked as finished", W, what, "notify")
            if not ok:
                ctx.check(not (dea + act + chn), "no controller is switched if the hardware mode switch failed", W, what, "mode-fail")
                continue
            ctx.check(len(dea) == 1 and len(act) == 1, "controllers are deactivated and activated once per switch", W, what, "once")
            if len(dea) != 1 or len(act) != 1:
                continue
            d, a = ev[dea[0]][2], ev[act[0]][2]
            ctx.check(lst(d[1]) == de, "exactly the controllers requested to stop are deactivated", W, f"{what}: {lst(d[1])}", "deactivate-args")
            ctx.check(lst(a[1]) == ac and a[2] == T.c(strictness), "exactly the controllers requested to start are activated, with the requested strictness", W, f"{what}: {lst(a[1])} {T.show(a[2])}", "activate-args")
            got = [(ev[i][1], ev[i][3]) for i in chn]
            exp = sorted([(n, T.c(True)) for n in to if states.get(n, INACTIVE) != ACTIVE] + [(n, T.c(False)) for n in frm if states.get(n, INACTIVE) != ACTIVE], key=repr)
            ctx.check(sorted(got, key=repr) == exp, "exactly the requested chained modes are changed, never of an active controller", W, f"{what}: {got}", "chained-args")
            ctx.check(mode[0] < dea[0], "the hardware mode is switched before controllers are deactivated", W, what, "order-mode")
            ctx.check(not chn or dea[0] < min(chn) and max(chn) < act[0], "chained modes change after deactivation and before activation", W, what, "order-chain")
            ctx.check(dea[0] < act[0], "controllers are deactivated before others are activated", W, what, "order-activate")
            ctx.check(falses and min(falses) > act[0] and note and (min(note) > act[0] or ev[min(note)][2]), "completion is reported only after all controllers were switched", W, what, "order-done")

    def cycle():
        W = where(db.one(C.CM + "update"))
        REQ = ("activate_request", "deactivate_request", "to_chained_mode_request", "from_chained_mode_request")
        ctls = lambda: [Ctl("a", cmd=["x"]), Ctl("b", cmd=["y"], throws=False), Ctl("i", INACTIVE)]
        for handle in (True, False):
            for pend, asap in ((True, True), (True, False), (False, True), (False, False)):
                for lab, req in (("nothing", {}),) + tuple((f"a in {f}", {f: ("a",)}) for f in REQ) + (("i in activate_request", {"activate_request": ("i",)}),):
                    def setup(I, s):
                        I.wr(s, ("fld", C.SWITCH, "do_switch"), T.c(pend))
                        I.wr(s, ("fld", C.SWITCH, "activate_asap"), T.c(asap))
                        for f, v in req.items():
                            I.wr(s, ("fld", C.SWITCH, f), strs(*v))
                    I, outs = C.run(ctx, "update", ctls(), {}, setup, stubs={n: True for n in (
                        "manage_switch", "perform_hardware_command_mode_change", "deactivate_controllers", "activate_controllers", "publish_activity_of_controllers", "publish_activity")}, HANDLE_EXC=handle)
                    for k, s, v in outs:
                        if k != "ret":
                            continue
                        ev = events(s)
                        what = f"{lab}, switch pending {pend}, in the control loop {asap}"
                        m = [i for i, e in enumerate(ev) if e[:2] == ("call", "manage_switch")]
                        up = [i for i, e in enumerate(ev) if e[0] == "update"]
                        ctx.check(len(m) == (1 if pend and asap else 0), "the control loop carries out a pending switch exactly if it was asked to", W, f"{what}: {len(m)} times", "cycle")
                        ctx.check(not m or not up or m[0] > max(up), "controllers are switched after the cycle's updates", W, what, "cycle-order")
                        r = I.read(s, ("fld", C.SWITCH, "ready_to_switch"))
                        if T.isc(r):
                            ctx.check(bool(r[1]) == (pend and not asap), "the control loop lets the caller carry out a switch exactly if that was asked for", W, f"{what}: ready {r[1]}", "ready")
                        else:
                            ctx.undecided(what, T.show(r)[:100])
                        if pend and not asap:
                            hit = {x for f, v in req.items() for x in v}
                            ctx.check(not [i for i in up if ev[i][1] in hit], "a controller being switched by the caller is not updated meanwhile", W, what, "skip")

    jobs = []
    n = 0
    for de in ([], ["d"], ["d", "d2"]):
        for ac in ([], ["a"], ["a", "a2"]):
            for to, frm in (([], []), (["t"], []), ([], ["f"]), (["t"], ["f"])):
                n += 1
                jobs.append((f"switch {n}", switch, (f"stop {de} start {ac} chain {to} unchain {frm}", de, ac, to, frm, ["ai"] if ac else [], ["di"] if de else [], 1 + n % 2, {"d": ACTIVE, "d2": ACTIVE, "o": ACTIVE})))
    jobs.append(("active chain", switch, ("chaining an active controller", [], [], ["t"], ["f"], [], [], 2, {"t": ACTIVE, "f": ACTIVE})))
    jobs.append(("restart", switch, ("restart", ["d"], ["d"], [], [], ["x"], ["x"], 2, {"d": ACTIVE})))
    jobs.append(("cycle", cycle, ()))
    ctx.pmap(jobs)
