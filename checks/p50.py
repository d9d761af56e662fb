"""P50 active controllers are updated when they are due, with the time that passed."""
import itertools
from engine import terms as T
from engine import cm as C
from engine.cm import Ctl, UNCONF, INACTIVE, ACTIVE, FINAL, NAMES, events, strs
from engine.interp import State
from engine.util import *

STUBS = ("perform_hardware_command_mode_change", "deactivate_controllers", "activate_controllers", "manage_switch", "publish_activity_of_controllers", "publish_activity")
ZERO = ("make", "rclcpp::Time", T.c(0), T.c(0), T.c(0))
PAST = ("make", "rclcpp::Time", T.c(7), T.c(0), T.c(0))
NOW = ("make", "rclcpp::Time", T.c(9), T.c(0), T.c(0))
BASE = "controller_interface::ControllerInterfaceBase::"


def run(ctx):
    db = ctx.db
    ctx.rule("One update cycle is interpreted abstractly for every combination of a controller's state, rate, history, asynchronous execution and pending switch; per path the updates made and the times passed to them are compared with the schedule. "
             "The base class's update trigger is interpreted in the same way.")
    ctx.assumption("elapsed times are taken from both sides of every decision threshold (one cycle before due, just before and after the half way point, late); ties are not decided")
    fn = db.one(C.CM + "update")
    W = where(fn)

    def cycle(label, ctls, want, last, elapsed=None, started=True, time=NOW, setup=None, rate=100, why=""):
        """want: {controller: None (not updated) | "nominal" | "elapsed"}"""
        I, outs = C.run(ctx, "update", ctls, {0: time}, setup, stubs={n: True for n in STUBS}, last=last, elapsed=elapsed or {}, clock_started=started, update_throws=False, rate=rate)
        by = {c.name: c for c in ctls}
        rets = [(s, events(s)) for k, s, v in outs if k == "ret"]
        if len(rets) != len(outs):
            ctx.undecided(label, "a path does not return")
        if not rets:
            ctx.undecided(label, "no path")
            return
        for n, w in want.items():
            counts = {len([e for e in ev if e[0] == "update" and e[1] == n]) for s, ev in rets}
            # a path whose decision hangs on something that is not tracked proves nothing
            if len(counts) > 1 and counts <= {0, 1}:
                ctx.undecided(f"{label}: {n}", "whether it is due depends on something the analysis does not track")
                continue
            exp = 0 if w is None else 1
            ctx.check(counts == {exp}, "a controller is updated exactly when it is due" if w else "a controller that is not due, not active or being switched is not updated",
                      W, f"{label}: controller {n} is updated {sorted(counts)} times", f"{label.split(':')[0]}-{n}")
            if w is None or counts != {1}:
                continue
            for s, ev in rets:
                u = [i for i, e in enumerate(ev) if e[0] == "update" and e[1] == n][0]
                args = ev[u][3]
                if len(args) != 2:
                    ctx.undecided(label, "arguments of the update")
                    continue
                before = [e for e in ev[:u] if e[0] == "now"]
                cur = [e[1] for e in before if e[2] == "trigger"] if started else [time]
                t, per = args
                c = by[n]
                if w == "nominal":
                    full = (c.rate or rate) >= rate
                    if full:
                        x = secs(per)
                        ok = T.show(per) == "period" or x is not None and abs(x - 1.0 / (c.rate or rate)) < 1e-8
                        if not ok and not known_time(per) and x is None:
                            ctx.undecided(label, f"period {T.show(per)}")
                            continue
                    else:
                        x = secs(per)
                        if x is None and T.show(per) != "period":
                            ctx.undecided(label, f"period {T.show(per)}")
                            continue
                        ok = x is not None and abs(x - 1.0 / c.rate) < 1e-8
                    ctx.check(ok, "the first update is given the controller's nominal period", W, f"{label}: controller {n} ({c.rate or rate} Hz) is given {T.show(per)}", f"{label.split(':')[0]}-{n}-nominal")
                else:
                    cands = [T.sub(x, last[n]) for x in cur]
                    ok = any(leq(per, x) for x in cands)
                    if not ok and not known_time(per):
                        ctx.undecided(label, f"period {T.show(per)}")
                        continue
                    ctx.check(ok, "an update is given the time since the previous update", W, f"{label}: controller {n} is given {T.show(per)}", f"{label.split(':')[0]}-{n}-elapsed")
                node = [e[1] for e in before if e[2] == "node"]
                if t[0] == "sym" and str(t[1]).startswith("now"):
                    ctx.check(t in node, "updates are given the time of the manager's clock", W, f"{label}: controller {n} is given {T.show(t)}", "clock")
                last_sets = [e for e in ev if e[0] in ("lastset", "reset") and e[1] == n]
                if not last_sets:
                    ctx.bad("the time of the update is kept for the next period", W, f"{label}: controller {n}", f"{label.split(':')[0]}-{n}-keep")
                else:
                    v = last_sets[-1][3] if last_sets[-1][0] == "lastset" else ZERO
                    known = v in cur or v == time or v == ZERO or v[0] == "sym" and str(v[1]).startswith("now")
                    if not known:
                        ctx.undecided(label, f"kept time {T.show(v)}")
                        continue
                    # the kept time is the one the period was measured up to
                    upto = [x for x in cur if leq(per, T.sub(x, last[n]))] if w == "elapsed" else cur
                    ctx.check(v in upto, "the time kept is the one up to which the period was measured", W, f"{label}: controller {n}: period {T.show(per)}, kept {T.show(v)}", f"{label.split(':')[0]}-{n}-kept")

    def known_time(t):
        a, k = lin(t)
        return all(x[0] == "sym" and str(x[1]).startswith(("now", "time", "period")) or T.show(x) in ("time", "period") or x in (PAST, ZERO, NOW) or x[0] == "call" and "from_seconds" in T.show(x) for x in a)

    def secs(t):
        """seconds of a duration made from a number of seconds"""
        s = T.show(t)
        if "from_seconds" in s:
            n = [x for x in T.subterms(t) if T.is_num(x)]
            if len(n) == 1:
                return float(n[0][1])
        return None

    def switching(**lists):
        def f(I, s):
            for k, v in lists.items():
                if k.startswith("_"):
                    I.wr(s, ("fld", C.SWITCH, k[1:]), T.c(v))
                else:
                    I.wr(s, ("fld", C.SWITCH, k), strs(*v))
        return f

    def states():
        for st in (UNCONF, INACTIVE, FINAL, ACTIVE):
            for rate in (0, 40):
                cycle(f"a controller that is {NAMES[st]}", [Ctl("a", st, rate=rate, throws=False), Ctl("b", throws=False)], {"a": "nominal" if st == ACTIVE else None, "b": "elapsed"}, {"a": ZERO, "b": PAST})

    def full():
        for r in (0, 100, 120):
            cycle(f"first cycle, rate {r or 100}: ", [Ctl("a", rate=r, throws=False)], {"a": "nominal"}, {"a": ZERO})
            for e in (0.0001, 0.01, 3.0):
                cycle(f"later cycle, rate {r or 100}, after {e} s: ", [Ctl("a", rate=r, throws=False), Ctl("b", rate=r, throws=False)], {"a": "elapsed", "b": "elapsed"}, {"a": PAST, "b": PAST}, {"a": e, "b": e})

    def slow():
        # manager at 100 Hz: a controller of r Hz is due in the cycle nearest to 1/r after its last update
        for r in (50, 40, 20, 10, 1):
            cycle(f"first cycle, rate {r}: ", [Ctl("a", rate=r, throws=False)], {"a": "nominal"}, {"a": ZERO})
            due = 1.0 / r
            for e in (due - 0.0151, due - 0.0055):
                cycle(f"early, rate {r}, after {e:.4f} s: ", [Ctl("a", rate=r, throws=False)], {"a": None}, {"a": PAST}, {"a": e})
            for e in (due - 0.0045, due, due + 0.004, due + 0.02, 3 * due):
                cycle(f"due, rate {r}, after {e:.4f} s: ", [Ctl("a", rate=r, throws=False)], {"a": "elapsed"}, {"a": PAST}, {"a": e})
            for e, w in ((due - 0.0055, None), (due - 0.0045, "elapsed"), (due + 0.004, "elapsed")):
                cycle(f"asynchronous, rate {r}, after {e:.4f} s: ", [Ctl("a", rate=r, is_async=True, throws=False)], {"a": w}, {"a": PAST}, {"a": e})
        for m in (500, 1000):
            for r in (m // 2, m // 5):
                due = 1.0 / r
                for e, w in ((due - 0.6 / m, None), (due - 0.4 / m, "elapsed")):
                    cycle(f"manager at {m} Hz, rate {r}, after {e:.5f} s: ", [Ctl("a", rate=r, throws=False)], {"a": w}, {"a": PAST}, {"a": e}, rate=m)

    def independent():
        cycle("slow and fast together: ", [Ctl("a", rate=10, throws=False), Ctl("b", throws=False), Ctl("c", rate=50, throws=False)], {"a": None, "b": "elapsed", "c": "elapsed"},
              {"a": PAST, "b": ("make", "rclcpp::Time", T.c(6), T.c(0), T.c(0)), "c": ("make", "rclcpp::Time", T.c(5), T.c(0), T.c(0))}, {"a": 0.05, "b": 0.01, "c": 0.02})

    def clocks():
        cycle("clock not started: ", [Ctl("a", throws=False), Ctl("b", rate=50, throws=False), Ctl("c", rate=50, throws=False)], {"a": "elapsed", "b": "elapsed", "c": None}, {"a": PAST, "b": ("make", "rclcpp::Time", T.c(5), T.c(0), T.c(0)), "c": ("make", "rclcpp::Time", T.c(6), T.c(0), T.c(0))},
              {"a": 0.01, "b": 0.02, "c": 0.01}, started=False)
        I, outs = C.run(ctx, "update", [Ctl("a", throws=False)], {0: ZERO}, None, stubs={n: True for n in STUBS}, clock_started=False)
        for k, s, v in outs:
            ctx.check(k != "ret" and not [e for e in events(s) if e[0] == "update"], "without any source of time nothing is updated and an error is raised", W, f"clock not started, time 0: {k}", "notime")

    def switch():
        lists = ("activate_request", "deactivate_request", "to_chained_mode_request", "from_chained_mode_request")
        for l in lists:
            for asap in (True, False):
                for asyn in (False, True):
                    sw = switching(_do_switch=True, _activate_asap=asap, **{l: ["a"]})
                    w = "elapsed"
                    if not asap:
                        w = None
                    elif asyn and l == "deactivate_request":
                        w = None
                    if asap and not asyn and l == "deactivate_request":
                        w = "elapsed"
                    cycle(f"pending switch ({l}, {'in' if asap else 'outside'} the loop{', asynchronous' if asyn else ''}): ", [Ctl("a", is_async=asyn, throws=False), Ctl("b", throws=False)], {"a": w, "b": "elapsed"}, {"a": PAST, "b": PAST}, {"a": 0.01, "b": 0.01}, setup=sw)
            cycle(f"no pending switch ({l}): ", [Ctl("a", is_async=True, throws=False)], {"a": "elapsed"}, {"a": PAST}, {"a": 0.01}, setup=switching(_do_switch=False, _activate_asap=False, **{l: ["a"]}))

    def trigger():
        f = db.one(BASE + "trigger_update")
        Wt = where(f)
        rt = C.enumvals(db, "controller_interface::return_type")

        class I_(Exact):
            objects = True
            inline_new = True
            is_async = False
            skip = False

            def ev_(self, s, *e):
                s.tags["ev"] = s.tags.get("ev", ()) + (e,)

            def want_inline(self, fn, call):
                return fn["q"] != BASE + "update"

            def on_call(self, s, call):
                n = call.name
                if n == "is_async" and call.fq.startswith(BASE):
                    return [(s, T.c(self.is_async))]
                if n in ("load", "operator bool", "operator std::atomic<bool>::value_type") and call.recv is not None and has_sub(call.recv, lambda x: x[0] == "fld" and x[2] == "skip_async_triggers_") or n == "operator __integral_type" and call.recv is not None and has_sub(call.recv, lambda x: x[0] == "fld" and x[2] == "skip_async_triggers_"):
                    return [(s, T.c(self.skip))]
                if n == "update" and (call.fq.startswith("controller_interface::")):
                    out = []
                    for m in rt:
                        s2 = s.copy()
                        self.ev_(s2, "update", m, tuple(call.args))
                        out.append((s2, ("enum", "controller_interface::return_type::" + m, rt[m])))
                    return out
                if n == "trigger_async_callback":
                    out = []
                    for ok in (True, False):
                        for m in rt:
                            s2 = s.copy()
                            self.ev_(s2, "async", m, tuple(call.args), ok)
                            out.append((s2, ("rec", "std::pair", (("first", T.c(ok)), ("second", ("enum", "controller_interface::return_type::" + m, rt[m]))))))
                    return out
                if n in ("now", "get_current_callback_time", "get_last_execution_time", "count", "get_clock_type", "get_node", "get_logger", "get_clock"):
                    s.n += 1
                    return [(s, ("sym", f"{n}{s.n}"))]
                return None
        for asy in (False, True):
            for skip in (False, True):
                I = I_(db)
                I.is_async, I.skip = asy, skip
                outs = I.run(f, args={0: ("sym", "TIME"), 1: ("sym", "PERIOD")})
                ctx.saw_interp(I, outs)
                for k, s, v in outs:
                    ev = s.tags.get("ev", ())
                    what = f"{'asynchronous' if asy else 'synchronous'} controller{', triggers skipped' if skip and asy else ''}"
                    if k != "ret":
                        ctx.undecided(what, "the trigger does not return")
                        continue
                    kind = "async" if asy else "update"
                    other = [e for e in ev if e[0] != kind]
                    mine = [e for e in ev if e[0] == kind]
                    if asy and skip:
                        ctx.check(not ev, "an asynchronous controller being deactivated is not triggered", Wt, what, "t-skip")
                        r = fld_of(v, "result")
                        if r is not None and r[0] == "enum":
                            ctx.check(r[1].endswith("::OK"), "not triggering a controller is not reported as its failure", Wt, f"{what}: {r[1]}", "t-skipresult")
                            ctx.check(fld_of(v, "successful") != T.c(True), "a trigger is reported successful exactly when the controller was triggered", Wt, what, "t-success")
                        continue
                    ctx.check(not other and len(mine) == 1, "a due controller is triggered exactly once, in its own way", Wt, f"{what}: {[(e[0]) for e in ev]}", f"t-{kind}")
                    if len(mine) != 1:
                        continue
                    e = mine[0]
                    ctx.check(e[2][:2] == (("sym", "TIME"), ("sym", "PERIOD")), "time and period are passed on to the controller", Wt, f"{what}: {[T.show(x) for x in e[2]]}", "t-args")
                    r, suc = fld_of(v, "result"), fld_of(v, "successful")
                    if r is None or r[0] != "enum":
                        ctx.undecided(what, f"result {T.show(v)[:200]}")
                        continue
                    ctx.check(r[1].endswith("::" + e[1]), "the controller's result is the result of the trigger", Wt, f"{what}: the controller answered {e[1]}, reported {r[1]}", "t-result")
                    want = T.c(e[3]) if asy else T.c(True)
                    if suc is None or not T.isc(suc):
                        ctx.undecided(what, "success is not tracked")
                        continue
                    ctx.check(suc == want, "a trigger is reported successful exactly when the controller was triggered", Wt, f"{what}: {T.show(suc)} instead of {T.show(want)}", "t-success")

    def fld_of(v, n):
        d = 0
        while v[0] in ("tmp",) and d < 5:
            v = v[1]
            d += 1
        if v[0] == "upd":
            for k, x in v[2]:
                if k == n:
                    return x
            return fld_of(v[1], n)
        if v[0] == "rec":
            for k, x in v[2]:
                if k == n:
                    return x
        return None

    ctx.pmap([("states", states, ()), ("full rate", full, ()), ("lower rate", slow, ()), ("independence", independent, ()), ("clocks", clocks, ()), ("pending switch", switch, ()), ("trigger", trigger, ())])
