"""P16 hardware component lifecycle follows the documented state machine."""
from engine import terms as T
from engine import hw as H
from engine.util import *
from engine.hw import UNKNOWN, UNCONF, INACTIVE, ACTIVE, FINAL, NAMES

CPP = "hardware_interface/src/hardware_component.cpp"
# request: start states, its callback, {result: end state; None = error handling}
TABLE = {
    "initialize": ({UNKNOWN}, "on_init", {"SUCCESS": UNCONF, "FAILURE": FINAL, "ERROR": FINAL}),
    "configure": ({UNCONF}, "on_configure", {"SUCCESS": INACTIVE, "FAILURE": UNCONF, "ERROR": None}),
    "cleanup": ({INACTIVE}, "on_cleanup", {"SUCCESS": UNCONF, "FAILURE": None, "ERROR": None}),
    "shutdown": ({UNCONF, INACTIVE, ACTIVE}, "on_shutdown", {"SUCCESS": FINAL, "FAILURE": None, "ERROR": None}),
    "activate": ({INACTIVE}, "on_activate", {"SUCCESS": ACTIVE, "FAILURE": INACTIVE, "ERROR": None}),
    "deactivate": ({ACTIVE}, "on_deactivate", {"SUCCESS": INACTIVE, "FAILURE": ACTIVE, "ERROR": None}),
    "error": ({INACTIVE, ACTIVE, FINAL}, "on_error", {"SUCCESS": UNCONF, "FAILURE": FINAL, "ERROR": FINAL}),
}


def run(ctx):
    db = ctx.db
    ctx.rule("Every request is interpreted abstractly in every lifecycle state with every result of the plugin's callbacks (including an optional asynchronous worker): "
             "the callbacks that run, the state passed to them and the state afterwards are compared with the transition table; the state reported by the component, "
             "its cached identifier and its label must agree.")
    ctx.assumption("callbacks return one of the three documented results and do not change the lifecycle state themselves")

    def step(start, op):
        name = H.OPS[op]
        allowed, cb, ends = TABLE[name]
        W = where(db.one("hardware_interface::HardwareComponent::" + name))
        I, f, outs = H.run(ctx, "hw_step", start=start, op=op)
        for k, s, v in outs:
            what = f"{name} in state {NAMES[start]}"
            if k != "ret":
                ctx.bad("requests do not raise", W, f"{what}: {v}", f"{name}-throw")
                continue
            ev = H.events(s)
            cbs = [e for e in ev if e[0] == "cb"]
            res = [e[2] for e in ev if e[0] == "res" and e[1] in H.CALLBACKS]
            what += "".join(f", {e[1]} returns {r}" for e, r in zip(cbs, res))
            after, cached, ret, label = (s.heap.get(("sym", x)) for x in ("after", "cached", "ret", "name"))
            a = H.num(after)
            if a is None or H.num(cached) is None:
                ctx.undecided(what, f"state afterwards: {T.show(after) if after else None}, cached {T.show(cached) if cached else None}")
                continue
            ctx.check(H.num(cached) == a and H.num(ret) == a, "reported and cached lifecycle state agree", W, f"{what}: state {a}, cached {T.show(cached)}, returned {T.show(ret)}", f"{name}-agree")
            if T.isc(label):
                ctx.check(label[1] == H.LABELS.get(a), "the state's label matches the state", W, f"{what}: {NAMES.get(a, a)} is labelled {label[1]!r}", f"{name}-label")
            names = [e[1] for e in cbs]
            if start not in allowed:
                # error handling is optional only where nothing is configured yet
                ctx.check(not names, "a request in a state it is not allowed in runs no callback", W, f"{what}: runs {names}", f"{name}-ignored-cb")
                ctx.check(a == start, "a request in a state it is not allowed in changes nothing", W, f"{what}: {NAMES.get(a, a)} afterwards", f"{name}-ignored-state")
                continue
            if not ctx.check(names[:1] == [cb], "a request runs its callback", W, f"{what}: runs {names}", f"{name}-cb"):
                continue
            for e in cbs[:1]:
                if e[5] is not None:
                    ctx.check(e[5] == start, "the callback is told the state it starts from", W, f"{what}: {NAMES.get(e[5])}", f"{name}-cb-state")
            end = ends[res[0]]
            if end is not None:
                ctx.check(len(names) == 1, "a request runs nothing but its callback", W, f"{what}: runs {names}", f"{name}-extra")
                ctx.check(a == end, "a request ends in the state determined by its callback's result", W, f"{what}: {NAMES.get(a, a)} instead of {NAMES[end]}", f"{name}-end")
            elif start == UNCONF and len(names) == 1:
                # without a configured component there is nothing to handle
                ctx.check(a in (UNCONF, FINAL), "an error while unconfigured never leads to a configured state", W, f"{what}: {NAMES.get(a, a)}", f"{name}-end")
            else:
                if not ctx.check(names[1:] == ["on_error"], "an error runs the error handler once", W, f"{what}: runs {names}", f"{name}-handler"):
                    continue
                end = UNCONF if res[1] == "SUCCESS" else FINAL
                ctx.check(a == end, "an error ends in the state determined by the error handler's result", W, f"{what}: {NAMES.get(a, a)} instead of {NAMES[end]}", f"{name}-handled")
        # every result of the callback has to be possible
        if start in allowed:
            seen = {r for k, s, v in outs for r in [e[2] for e in H.events(s) if e[0] == "res" and e[1] == cb][:1]}
            if len(seen) < 3:
                ctx.undecided(f"{name} in {NAMES[start]}", f"results seen: {sorted(seen)}")

    ctx.pmap([(f"{n}", lambda op=i: [step(st, op) for st in NAMES], ()) for i, n in enumerate(H.OPS)])
