"""P18 lifecycle callbacks never overlap the cyclic hardware access."""
from engine import terms as T
from engine import hw as H
from engine import rm as R
from engine.util import *
from engine.hw import NAMES, ACTIVE, INACTIVE


def run(ctx):
    db = ctx.db
    ctx.rule("Every request of a hardware component is interpreted abstractly in every lifecycle state: at each plugin callback the component's lock must be held exclusively "
             "and an asynchronous worker must have been paused or stopped before. The lock handed out by the component must be that very lock, and the resource manager's cyclic "
             "access must hold it (obtained without waiting) around every access to the component. Destroying a component stops its worker first.")
    ctx.assumption("pausing or stopping the asynchronous worker waits until its current cycle ended")

    def name_of(m):
        return m[2] if m[0] == "fld" else None

    def step(start, op):
        n = H.OPS[op]
        W = where(db.one("hardware_interface::HardwareComponent::" + n))
        I, f, outs = H.run(ctx, "hw_step", start=start, op=op)
        sets = []
        for k, s, v in outs:
            ev = H.events(s)
            paused = False
            has = [b for a, b in s.facts.items() if a[0] == "fld" and a[2] == "async_handler_"]
            for e in ev:
                if e[0] == "async" and e[1] in ("pause_execution", "stop_thread"):
                    paused = True
                if e[0] == "async" and e[1] == "trigger_async_callback":
                    paused = False
                if e[0] != "cb" or e[1] == "on_init":
                    continue
                what = f"{e[1]} called by {n} in state {NAMES[start]}"
                held = {name_of(m) for m, shared in e[2] if not shared}
                sets.append(held)
                ctx.check(held, "a lifecycle callback runs under the component's lock", W, what, f"{n}-{e[1]}-lock")
                if has and has[0]:
                    ctx.check(paused, "the asynchronous worker is paused before a lifecycle callback", W, what, f"{n}-{e[1]}-pause")
        return sets

    def lifecycle():
        sets = [x for op in range(1, len(H.OPS)) for st in NAMES for x in step(st, op)]
        sets = [x for x in sets if x]
        W = where(db.one("hardware_interface::HardwareComponent::get_mutex"))
        if not sets:
            ctx.undecided("lifecycle callbacks", "none found")
            return
        common = set.intersection(*sets)
        ctx.check(common, "all lifecycle callbacks run under one common lock", W, f"locks held: {sorted({str(x) for y in sets for x in y})}", "common-lock")
        g = db.one("hardware_interface::HardwareComponent::get_mutex")
        I = Exact(db)
        outs = I.run(g)
        ctx.saw_interp(I, outs)
        for k, s, v in outs:
            if v is not None and v[0] == "loc":
                ctx.check(name_of(v[1]) in common, "the lock handed out is the one lifecycle callbacks hold", W, T.show(v[1]), "mutex")
            elif v is not None and v[0] in ("fld",):
                ctx.check(name_of(v) in common, "the lock handed out is the one lifecycle callbacks hold", W, T.show(v), "mutex")
            else:
                ctx.undecided("component lock", T.show(v) if v else "none")

    def destroy():
        I, f, outs = H.run(ctx, "hw_destroy")
        W = where(db.one("hardware_interface::HardwareComponent::~HardwareComponent"))
        seen = False
        for k, s, v in outs:
            has = [b for a, b in s.facts.items() if a[0] == "fld" and a[2] == "async_handler_"]
            if has and has[0]:
                seen = True
                names = [e[1] for e in H.events(s) if e[0] == "async"]
                ctx.check(any(x in ("stop_thread", "pause_execution") for x in names), "destroying a component stops its worker", W, f"calls {names}", "destroy")
        if not seen:
            if db.find("hardware_interface::HardwareComponent::~HardwareComponent"):
                ctx.check(False, "destroying a component stops its worker", W, "the worker is not looked at", "destroy")

    def cyclic(op):
        n = ("read", "write")[op]
        comps = [R.Comp("actuator", "hw0", cmd=("c0",), st=("s0",)), R.Comp("system", "hw1", cmd=("c1",), st=("s1",))]
        W = where(db.one("hardware_interface::ResourceManager::" + n))
        for rate in (0, 50):
            for c in comps:
                c.rate = rate
            I, outs = R.run(ctx, n, comps)
            found = False
            for k, s, v in outs:
                for e in R.events(s):
                    if e[0] == "io":
                        found = True
                        ctx.check(("sym", "mutex of " + e[2]) in e[4], f"the cyclic {n} holds the component's lock", W, f"{e[1]} of {e[2]}", f"{n}-lock")
            if not found:
                ctx.undecided(f"cyclic {n}", "no access to a component found")
            for m, mode in I.lockmodes:
                if m[0] == "sym" and m[1].startswith("mutex of "):
                    ctx.check(mode == "try", f"the cyclic {n} only tries to lock a component", W, "blocking lock of the component's mutex", f"{n}-trylock")

    ctx.pmap([("lifecycle callbacks", lifecycle, ()), ("destruction", destroy, ()), ("cyclic read", cyclic, (0,)), ("cyclic write", cyclic, (1,))])
