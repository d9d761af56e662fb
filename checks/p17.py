"""P17 read and write only reach hardware in the right state."""
from engine import terms as T
from engine import hw as H
from engine.util import *
from engine.hw import UNCONF, INACTIVE, ACTIVE, FINAL, NAMES


def run(ctx):
    db = ctx.db
    ctx.rule("The cyclic entry points are interpreted abstractly in every lifecycle state, for synchronous components and for asynchronous ones whose worker runs or is "
             "still busy, with every result of the plugin's read and write: which of the plugin's functions run, what is reported and whether errors are handled is "
             "checked on every path, for asynchronous components over consecutive cycles.")
    ctx.assumption("the worker runs at most once per trigger, between two cycles")
    RW, WW = (where(db.one("hardware_interface::HardwareComponent::" + n)) for n in ("read", "write"))
    SENSOR = T.eq(T.c("sensor"), ("fld", T.deref(("sym", "p")), "info_"))

    def sensor(s):
        """whether the path established that the component is a pure sensor"""
        for a, b in s.facts.items():
            if a[0] == "==" and T.c("sensor") in a[1:] and "type" in repr(a):
                return b
        return None

    def io(ev):
        return [e for e in ev if e[0] == "io"]

    def res(ev, n):
        return [e[2] for e in ev if e[0] == "res" and e[1] == n]

    def handled(s, ev, start, after, what, W, key):
        errs = [e for e in ev if e[0] == "cb"]
        ctx.check([e[1] for e in errs] == ["on_error"], "a failing read or write runs the error handling once", W, f"{what}: runs {[e[1] for e in errs]}", f"{key}-handler")
        if after is not None:
            ctx.check(after in (UNCONF, FINAL), "a failed component is no longer active", W, f"{what}: {NAMES.get(after, after)}", f"{key}-after")

    def cycle(start, op):
        n = ("read", "write")[op]
        W = (RW, WW)[op]
        may = {INACTIVE, ACTIVE} if op == 0 else {ACTIVE}
        I, f, outs = H.run(ctx, "hw_cycle", start=start, op=op)
        for k, s, v in outs:
            ev = H.events(s)
            what = f"{n} in state {NAMES[start]}"
            if k != "ret":
                ctx.bad("cyclic access does not raise by itself", W, f"{what}: {v}", f"{n}-throw")
                continue
            after = H.num(s.heap.get(("sym", "after")))
            done = io(ev)
            for e in done:
                ctx.check(e[1] == n, "a cyclic access runs only the function asked for", W, f"{what}: runs {e[1]}", f"{n}-other")
                ctx.check(start in may, f"the hardware's {n} runs only in allowed states", W, what, f"{n}-state")
                if op == 1:
                    ctx.check(sensor(s) is False, "the hardware's write never runs for sensors", W, what, "write-sensor")
                ctx.check(e[3] == (("sym", "t"), ("sym", "d")), "time and period are passed on", W, f"{what}: {[T.show(a) for a in e[3]]}", f"{n}-args")
            trig = [e for e in ev if e[0] == "async" and e[1] == "trigger_async_callback"]
            if start not in may:
                ctx.check(not trig, "an asynchronous cycle is triggered only in allowed states", W, what, f"{n}-trigger")
            r = res(ev, n)
            if done:
                ctx.check(len(done) == 1, "a cyclic access runs the hardware once", W, what, f"{n}-once")
                what += f", returning {r[0]}"
                ctx.check(H.num(v) == I.rt[r[0]], "the result of a cyclic access is passed on", W, f"{what}: reports {T.show(v)}", f"{n}-result")
                if r[0] == "ERROR":
                    handled(s, ev, start, after, what, W, n)
                else:
                    ctx.check(after == start and not [e for e in ev if e[0] == "cb"], "a cyclic access that did not fail leaves the state alone", W, what, f"{n}-kept")
            elif start not in may or (op == 1 and sensor(s)):
                ctx.check(H.num(v) == I.rt["OK"] and after == start, "a skipped access reports success and changes nothing", W, f"{what}: {T.show(v)}", f"{n}-skipped")
            elif trig and "busy" in res(ev, "async"):
                ctx.check(H.num(v) == I.rt["OK"] and after == start, "a busy component is not reported as an error", W, f"{what}, worker busy: {T.show(v)}", f"{n}-busy")
        if start in may and not any(io(H.events(s)) for k, s, v in outs):
            ctx.bad(f"the hardware's {n} runs in allowed states", W, f"{n} in state {NAMES[start]} never reaches the hardware", f"{n}-reached")

    def worker(start):
        I, f, outs = H.run(ctx, "hw_async", start=start)
        W = where(db.one("hardware_interface::HardwareComponentInterface::init"))
        for k, s, v in outs:
            ev = H.events(s)
            ev = ev[[i for i, e in enumerate(ev) if e == ("mark",)][-1]:] if ("mark",) in ev else ev
            if k != "ret":
                continue
            for e in io(ev):
                may = {INACTIVE, ACTIVE} if e[1] == "read" else {ACTIVE}
                ctx.check(start in may, f"the worker runs the hardware's {e[1]} only in allowed states", W, f"in state {NAMES[start]}", f"worker-{e[1]}-state")
                ctx.check(e[2], "an asynchronous component is accessed by its worker only", W, f"{e[1]} in state {NAMES[start]}", f"worker-{e[1]}-direct")
                if e[1] == "write":
                    ctx.check(sensor(s) is False, "the worker never writes sensors", W, f"in state {NAMES[start]}", "worker-sensor")
            names = [e[1] for e in io(ev)]
            if "run" in res(ev, "async"):
                ctx.check(names[:1] == ["read"], "the worker reads first", W, f"in state {NAMES[start]}: runs {names}", "worker-order")
                r = res(ev, "read")
                want = ["read", "write"] if r and r[0] == "OK" and start == ACTIVE and sensor(s) is False else ["read"]
                ctx.check(names == want, "the worker writes after a successful read of an active component", W, f"in state {NAMES[start]}, read returns {r}: runs {names}", "worker-write")

    def split(ev):
        out = [[]]
        for e in ev:
            if e == ("mark",):
                out.append([])
            else:
                out[-1].append(e)
        return out

    def later(op):
        I, f, outs = H.run(ctx, "hw_async_seq", op=op, type="system", lean=True)
        W = (RW, WW, RW)[op]
        n = 0
        for k, s, v in outs:
            if k != "ret":
                continue
            parts = split(H.events(s))
            if len(parts) < 2:
                continue
            first, second = parts[0], parts[1]
            if "run" not in res(first, "async"):
                continue
            r2 = H.num(s.heap.get(("sym", "r2")))
            rr, rw = res(first, "read"), res(first, "write")
            if op == 1:
                if not rw:
                    continue
                want = rw[0]
                what = f"write after the worker's write returned {want}"
            else:
                if "busy" in res(second, "async"):
                    ctx.check(r2 == I.rt["OK"], "a busy component is not reported as an error", W, "second read", "async-busy")
                    continue
                want = rr[0]
                what = f"read after the worker's read returned {want}"
            if r2 is None:
                ctx.undecided(what, T.show(s.heap.get(("sym", "r2")) or T.NULL))
                continue
            n += 1
            ctx.check(r2 == I.rt[want], "the worker's result is reported in the next cycle", W, f"{what}: reports {r2}", f"async-{op}-result")
            if want == "ERROR" and r2 == I.rt["ERROR"]:
                ctx.check([e[1] for e in second if e[0] == "cb"] == ["on_error"], "a failing read or write runs the error handling once", W, what, f"async-{op}-handler")
            if len(parts) > 2:
                third = parts[2]
                if op == 2 and [e[2] for e in third if e[0] == "res" and e[1] == "on_activate"] != ["SUCCESS"]:
                    continue
                if [e[2] for e in third if e[0] == "res" and e[1] == "on_configure"] == ["SUCCESS"]:
                    r3 = H.num(s.heap.get(("sym", "r3")))
                    ctx.check(r3 == I.rt["OK"] and not any(e[0] == "cb" and e[1] == "on_error" for e in third), "an error that was handled is not reported again", W,
                              f"first read after the component was configured again{' and activated' if op == 2 else ''}: reports {r3}", "async-stale")
        if not n:
            ctx.undecided(f"asynchronous sequence {op}", "no path")

    ctx.pmap([("cycles", lambda op=op: [cycle(st, op) for st in NAMES], ()) for op in (0, 1)] + [("worker", worker, (st,)) for st in NAMES] +
             [("consecutive cycles", later, (op,)) for op in (0, 1, 2)])
