"""P27 the control loop reads, updates, then writes."""
from engine import terms as T
from engine import cm as C
from engine.cm import Ctl, INACTIVE, ACTIVE, events
from engine.interp import State
from engine.util import *
from engine.db import strip_targs

RATE, MIN = 50, 0.001
PERIOD = 1000000000 // RATE


class Loop(Exact):
    objects = True
    K = 2
    LIMIT = 20000
    CYCLES = 2

    def __init__(self, db, cfg):
        super().__init__(db)
        self.cfg = cfg

    def want_inline(self, fn, call):
        return not fn["q"].startswith(("rclcpp", "realtime_tools", C.CM))

    def emit(self, s, *e):
        s.tags["ev"] = s.tags.get("ev", ()) + (e,)

    def opaque_ctor(self, n, s, t, args):
        b = strip_targs(t)
        if b in ("std::thread", "std::jthread"):
            out = []
            for s2, vs in self.evs(args, s):
                for s3, v in self.apply(vs[0], list(vs[1:]), n, s2):
                    out.append((s3, ("make", "std::thread")))
            return out
        if b in ("std::chrono::duration", "rclcpp::Duration") and len(args) == 1:
            return [(s2, vs[0]) for s2, vs in self.evs(args, s)]
        return super().opaque_ctor(n, s, t, args)

    def on_call(self, s, call):
        n, fq = call.name, call.fq
        if fq == "rclcpp::ok":
            if s.tags.get("cy", 0) >= self.CYCLES:
                s.tags["end"] = True
                return [(s, T.c(False))]
            a = s.copy()
            a.tags["cy"] = a.tags.get("cy", 0) + 1
            self.emit(a, "cycle")
            s.tags["end"] = True
            return [(a, T.c(True)), (s, T.c(False))]
        if n == "now":
            s.n += 1
            v = ("sym", f"now{s.n}")
            self.emit(s, "now", v, "steady" if "steady_clock" in fq else "clock")
            return [(s, v)]
        if n in ("get_parameter_or", "get_parameter"):
            k = [a[1] for a in call.args if T.isc(a) and isinstance(a[1], str)]
            if k and k[0] in self.cfg:
                return [(s, T.c(self.cfg[k[0]]))]
            if n == "get_parameter":
                return [(s, T.c(False))]
        if n in ("has_realtime_kernel", "configure_sched_fifo"):
            return [(s, ("sym", n))]
        if n == "get_update_rate":
            return [(s, T.c(RATE))]
        if n == "nanoseconds" and call.recvv is not None and fq.startswith("rclcpp::"):
            return [(s, call.recvv)]
        if n in ("count", "duration_cast") and fq.startswith("std::chrono") and (call.recvv is not None or call.args):
            return [(s, call.recvv if n == "count" else call.args[-1])]
        if fq.startswith(C.CM) and n in ("read", "update", "write"):
            self.emit(s, n, tuple(call.args))
            return [(s, T.c(None) if n != "update" else ("sym", "result"))]
        if n in ("sleep_for", "sleep_until") and fq.startswith(("std::this_thread", "rclcpp::")):
            e = ("sleep", "thread" if fq.startswith("std::") else "clock", n, call.args[0] if call.args else None)
            self.emit(s, *e)
            if fq.startswith("std::"):
                return [(s, T.c(None))]
            s2 = s.copy()
            s2.exc = ("std::runtime_error", call.line, "sleep_until")
            self.sink.append(s2)
            return [(s, ("sym", "slept"))]
        return None


def run(ctx):
    ctx.rule("The node's loop is interpreted abstractly for two cycles in every configuration of its waiting policy; the sequence of clock readings, manager calls and waits of every path is compared with read, update, write, wait. "
             "One update cycle of the manager is interpreted to place the enforcement of command limits, and the resource manager's enforcement over all limiters.")
    ctx.assumption("durations and times are exact; the clocks are not bounded")
    mains = [f for f in ctx.db.find("main") if f["file"].endswith("ros2_control_node.cpp")]
    if not mains:
        ctx.undecided("the control node's main function", "not found")
        return
    W = where(mains[0])
    for sim, man, blk in ((0, 0, 0), (0, 1, 0), (0, 0, 1), (0, 1, 1), (1, 0, 0), (1, 1, 1)):
        cfg = {"use_sim_time": bool(sim), "overruns.manage": bool(man), "hardware_synchronization.expect_blocking_read_write": bool(blk),
               "hardware_synchronization.minimum_cycle_time": MIN}
        label = f"{'simulated' if sim else 'blocking' if blk else 'periodic'}{' managed' if man else ''}"
        I = Loop(ctx.db, cfg)
        outs = I.run(mains[0], args={}, state=State())
        ctx.saw_interp(I)
        loops = 0
        for k, s, v in outs:
            loops += loop_path(ctx, W, label, s, sim, man, blk)
        if not loops:
            ctx.undecided(label, "no path runs the loop")
    limits(ctx)


def loop_path(ctx, W, label, s, sim, man, blk):
    ev = s.tags.get("ev", ())
    idx = [i for i, e in enumerate(ev) if e[0] == "cycle"]
    if not idx:
        return 0
    prev = None
    pre = [e for e in ev[:idx[0]] if e[0] == "now" and e[2] == "clock"]
    start = None
    target = None
    for j, i in enumerate(idx):
        cyc = ev[i + 1:idx[j + 1] if j + 1 < len(idx) else len(ev)]
        calls = [e for e in cyc if e[0] in ("read", "update", "write")]
        what = f"{label} cycle {j + 1}"
        ctx.check([e[0] for e in calls] == ["read", "update", "write"], "each cycle reads, updates and writes once, in this order", W,
                  f"{what}: {[e[0] for e in calls]}", f"{label}-order")
        if [e[0] for e in calls] != ["read", "update", "write"]:
            return 1
        nows = [e[1] for e in cyc[:cyc.index(calls[-1])] if e[0] == "now" and e[2] == "clock"]
        ctx.check(all(e[1][0] in nows for e in calls), "the cycle's calls get a time read in this cycle", W, f"{what}: {[T.show(e[1][0]) for e in calls]}", f"{label}-time")
        per = {e[1][1] for e in calls}
        ctx.check(len(per) == 1, "read, update and write of a cycle get the same period", W, f"{what}: {[T.show(p) for p in per]}", f"{label}-period-same")
        a, c0 = lin(calls[0][1][1])
        plus = [t for t, q in a.items() if q == 1]
        minus = [t for t, q in a.items() if q == -1]
        if len(plus) == 1 and len(minus) == 1 and len(a) == 2 and c0 == 0 and plus[0] in nows:
            now, last = plus[0], minus[0]
            if start is not None:
                ctx.check(last == start, "the period is the time since the start of the previous cycle", W, f"{what}: {T.show(calls[0][1][1])}", f"{label}-period")
            else:
                ctx.check(any(e[1] == last for e in pre), "the first period is measured from before the loop", W, f"{what}: {T.show(calls[0][1][1])}", f"{label}-period1")
            start = now
        elif all(t[0] == "sym" and str(t[1]).startswith("now") for t in a):
            ctx.bad("the period is the time since the start of the previous cycle", W, f"{what}: {T.show(calls[0][1][1])}", f"{label}-period")
            return 1
        else:
            ctx.undecided(what, "period " + T.show(calls[0][1][1])[:120])
            return 1
        wi = cyc.index(calls[-1])
        ctx.check(not [e for e in cyc[:wi] if e[0] == "sleep"], "nothing waits before the cycle's write", W, what, f"{label}-earlysleep")
        rest = cyc[wi + 1:]
        sl = [e for e in rest if e[0] == "sleep"]
        if sim:
            ctx.check(len(sl) == 1 and sl[0][1:3] == ("clock", "sleep_until"), "with simulated time the loop waits on the node's clock", W, f"{what}: {[e[1:3] for e in sl]}", f"{label}-wait")
            if len(sl) == 1 and sl[0][3] is not None:
                near(ctx, W, f"{label}-until", "it waits until one period after the cycle's start", what, sl[0][3], {start: 1}, PERIOD)
        elif blk:
            ends = [e[1] for e in rest if e[0] == "now" and e[2] == "clock"]
            ctx.check(len(sl) <= 1 and all(e[1:3] == ("thread", "sleep_for") for e in sl), "with blocking hardware the loop waits at most once", W, f"{what}: {[e[1:3] for e in sl]}", f"{label}-wait")
            if not ends:
                ctx.undecided(what, "no time is taken at the cycle's end")
                return 1
            el = T.sub(ends[0], start)
            short = decide(s.facts, el)
            if short is None:
                ctx.undecided(what, "the condition of the wait is not understood")
            else:
                ctx.check(short == bool(sl), "the loop waits exactly if the cycle was shorter than the minimum", W, f"{what}: cycle shorter: {short}, waits {len(sl)}", f"{label}-min")
            if sl and sl[0][3] is not None and T.is_num(sl[0][3]):
                ctx.check(sl[0][3][1] > 0, "the wait is positive", W, f"{what}: {T.show(sl[0][3])}", f"{label}-amount")
        else:
            ctx.check(len(sl) == 1 and sl[0][1:3] == ("thread", "sleep_until"), "the periodic loop waits until the next cycle's start", W, f"{what}: {[e[1:3] for e in sl]}", f"{label}-wait")
            if len(sl) != 1:
                return 1
            b, d = lin(sl[0][3])
            if target is None:
                base = [t for t, q in b.items() if q == 1 and t[0] == "sym"]
                ok = len(base) == 1 and any(e[0] == "now" and e[1] == base[0] for e in ev[:i])
                late = [e for e in cyc if e[0] == "now" and len(base) == 1 and e[1] == base[0]]
                if late:
                    ctx.bad("the planned start of a cycle does not depend on how long the previous one took", W, f"{what}: waits until {T.show(sl[0][3])[:120]}", f"{label}-drift")
                    return 1
                if not ok:
                    ctx.undecided(what, "wait until " + T.show(sl[0][3])[:160])
                    return 1
                target = base[0]
            diff = T.sub(sl[0][3], target)
            g, h = lin(diff)
            extra = {t: q for t, q in g.items()}
            ctx.check(h == PERIOD, "the next cycle starts a whole period after the planned start of this one", W, f"{what}: {T.show(diff)[:200]}", f"{label}-step")
            ctx.check(not extra or bool(man), "missed cycles are skipped only if overruns are managed", W, f"{what}: {T.show(diff)[:200]}", f"{label}-overrun")
            if extra:
                ctx.check(all(float(q) % PERIOD == 0 and q > 0 for q in extra.values()), "only whole periods are skipped", W, f"{what}: {T.show(diff)[:200]}", f"{label}-skip")
            target = sl[0][3]
    return 1


def near(ctx, W, key, obl, what, got, atoms, const):
    a, c0 = lin(got)
    if a == atoms and c0 == const:
        ctx.ok(obl, W)
    elif all(t[0] in ("sym",) for t in a):
        ctx.bad(obl, W, f"{what}: {T.show(got)[:160]}", key)
    else:
        ctx.undecided(what, T.show(got)[:160])


def decide(facts, el):
    """True if the path's facts say el < MIN, False if >= MIN, None unknown"""
    lo, hi = num_bounds(facts, el)
    m = int(MIN * 1e9)
    if hi is not None and hi <= m and lo is None:
        return True
    if lo is not None and lo >= m and hi is None:
        return False
    return None


def constant(t):
    """made from constants only"""
    def leaf(x):
        return T.isc(x) or x[0] in ("call", "make", "ufn", "num") or any(isinstance(y, tuple) and y and isinstance(y[0], str) for y in x)
    return all(leaf(x) for x in T.subterms(t)) and not has_sub(t, lambda x: x[0] in ("sym", "ret", "fld", "loc"))


def limits(ctx):
    W = where(ctx.db.one(C.CM + "update"))
    stubs = {n: True for n in ("perform_hardware_command_mode_change", "deactivate_controllers", "activate_controllers", "manage_switch", "publish_activity_of_controllers", "publish_activity")}
    cases = [("none", []), ("one", [Ctl("a", cmd=["x"])]), ("two", [Ctl("a", cmd=["x"]), Ctl("b", cmd=["y"])]), ("inactive", [Ctl("a", cmd=["x"]), Ctl("b", INACTIVE, cmd=["y"])]),
             ("fallback", [Ctl("a", cmd=["x"], fallbacks=["f"]), Ctl("f", INACTIVE, cmd=["x"])]), ("async", [Ctl("a", cmd=["x"], is_async=True), Ctl("b", cmd=["y"])]), ("slow", [Ctl("a", cmd=["x"], rate=10), Ctl("b", cmd=["y"])])]
    for label, ctls in cases:
        I, outs = C.run(ctx, "update", ctls, {0: ("sym", "time"), 1: ("sym", "period")}, None, stubs=stubs, HANDLE_EXC=True)
        for k, s, v in outs:
            if k != "ret":
                continue
            ev = events(s)
            en = [i for i, e in enumerate(ev) if e[0] == "enforce"]
            up = [i for i, e in enumerate(ev) if e[0] in ("update", "res") and "update" in e[:2]]
            what = f"{label}: {[e[:3] for e in ev if e[0] in ('update', 'enforce')]}"[:200]
            ctx.check(len(en) == 1, "every update cycle enforces the command limits once", W, what, "enforce-once")
            if len(en) == 1:
                ctx.check(not up or en[0] > max(up), "limits are enforced after all controllers were updated", W, what, "enforce-after")
                a = ev[en[0]][1]
                if a and a[0][0] == "sym":
                    ctx.check(a[0] == ("sym", "period"), "limits are enforced over the cycle's period", W, T.show(a[0]), "enforce-period")
                elif a and not has_sub(a[0], lambda x: x == ("sym", "period")) and constant(a[0]):
                    ctx.bad("limits are enforced over the cycle's period", W, T.show(a[0]), "enforce-period")
                elif a:
                    ctx.undecided("period of the enforcement", T.show(a[0])[:100])
