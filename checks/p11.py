"""P11 interface values are only touched under their lock, without blocking."""
from engine import terms as T
from engine import handles as H
from engine.util import *

HPP = "hardware_interface/include/hardware_interface/handle.hpp"
PUTS = {0: ("set_value(value, true)", True), 1: ("set_value(value, false)", False), 2: ("set_value(value)", False),
        3: ("set_limited_value(value)", False), 5: ("set_value(lock, value)", False)}
TAKES = {0: ("get_value(value, true)", True), 1: ("get_value(value, false)", False), 2: ("get_optional()", False), 3: ("get_optional(lock)", False)}


def run(ctx):
    db = ctx.db
    ctx.rule("Every accessor is interpreted abstractly for every accessed type and every declared type with the outcome of each lock request left open: each event "
             "that reads or writes a stored value must happen while that interface's own lock is held (exclusively for writes), non-waiting accessors must not "
             "request a lock blockingly, and paths on which the lock was not obtained must report failure and touch neither the value nor the caller's variable.")
    ctx.assumption("a lock object handed to an accessor belongs to that interface; introspection callbacks and constructors are outside the accessors")

    def judge(I, s, what, key, waiting, took, kind):
        for e in H.events(s):
            if e[0] in ("read", "write") and not e[2]:
                W = f"{HPP}:{e[5]} ({strip_targs(e[4])})"
                ctx.check(e[3], f"{'an interface value is written only while its lock is held exclusively' if e[0] == 'write' else 'an interface value is read only while its lock is held'}",
                          W, what, f"unlocked-{e[0]}-{key}")
            if e[0] == "lock" and not e[5]:
                W = f"{HPP}:{e[4]} ({strip_targs(e[3])})"
                if not waiting:
                    ctx.check(e[2].startswith(("try", "defer", "adopt")), "a non-waiting accessor never blocks on a lock", W, f"{what}: {e[2]}", f"blocking-{key}")
                ctx.check(not e[6], "an interface's lock is not requested twice", W, what, f"relock-{key}")
            if e[0] == "sleep":
                ctx.check(waiting, "a non-waiting accessor never sleeps", f"{HPP}:{e[2]}", what, f"sleep-{key}")

    def outcome(I, k, s, v, f, what, key, waiting, outname):
        W = where(f)
        o = H.owned(I, s)
        ok = v[1] if T.isc(v) else I.truth(s, v)
        touched = [e for e in H.events(s) if e[0] == "write" and not e[2]]
        if o is False and waiting:
            ctx.bad("an accessor that waits for the lock gets it", W, f"{what}: gives up", f"waiting-{key}")
        elif o is False:
            # (the driver itself takes the lock for the accessors that get one)
            ctx.check(k == "ret" and ok is False, "an accessor that does not get the lock reports failure", W, f"{what}: {'raises' if k == 'throw' else 'reports success'}", f"failure-{key}")
            if k == "ret":
                ctx.check(not touched, "an accessor that does not get the lock leaves the value alone", W, what, f"dirty-{key}")
                if outname:
                    ctx.check(H.final(s, outname) is None, "an accessor that does not get the lock leaves the caller's variable alone", W, what, f"out-{key}")
        elif k == "ret":
            ctx.check(ok is True, "an accessor that holds the lock and can access the value reports success", W, f"{what}: returns {T.show(v)}", f"success-{key}")

    def section(name, modes, par, outname):
        for ty, f in H.by_type(db, name, par).items():
            for d in H.TYPES:
                for how, (txt, waiting) in modes.items():
                    I, outs = H.run(ctx, f, type=d, how=how)
                    for k, s, v in outs:
                        what = f"{txt} with {ty} on {d}"
                        judge(I, s, what, f"{name}-{how}", waiting, None, name)
                        outcome(I, k, s, v, f, what, f"{name}-{how}", waiting, outname)

    def pointers():
        for name, modes, outname in (("handle_ptr_take", TAKES, "out"), ("handle_none_take", TAKES, "out"), ("handle_none_put", PUTS, None)):
            f = H.driver(db, name)[0]
            for how, (txt, waiting) in modes.items():
                I, outs = H.run(ctx, f, **{"w" if "put" in name else "r": how})
                for k, s, v in outs:
                    what = f"{txt} of {'an externally stored value' if 'ptr' in name else 'an interface without value'}"
                    judge(I, s, what, f"{name}-{how}", waiting, None, name)
                    outcome(I, k, s, v, f, what, f"{name}-{how}", waiting, outname)
        f = H.driver(db, "handle_ptr_rw")[0]
        for w, (txt, _) in PUTS.items():
            for r, (txt2, _) in TAKES.items():
                I, outs = H.run(ctx, f, w=w, r=r)
                for k, s, v in outs:
                    judge(I, s, f"{txt}, then {txt2}", f"ptr-{w}-{r}", PUTS[w][1] or TAKES[r][1], None, "rw")

    def copies():
        for name in ("handle_copy_ctor", "handle_copy_asg", "handle_move_asg", "handle_self"):
            for ty, f in H.by_type(db, name, "v1").items():
                d = [x for x, t in H.TYPES.items() if t == ty][0]
                kw = {"type": d}
                if any(p["n"] == "type0" for p in f["params"]):
                    kw["type0"] = "double"
                if any(p["n"] == "q" for p in f["params"]):
                    kw.update(q="q", j="j")
                if any(p["n"] == "how" for p in f["params"]):
                    kw["how"] = 1
                I, outs = H.run(ctx, f, **kw)
                for k, s, v in outs:
                    judge(I, s, f"{name[7:]} of {d}", name, True, None, name)
                    for e in H.events(s):
                        if e[0] == "read" and e[2] and strip_targs(e[4]).split("::")[-1] in ("copy", "swap") and e[1][0] == "var" and e[1][1] == "a":
                            ctx.check(e[3], "copying an interface holds the lock of its source", f"{HPP}:{e[5]} ({strip_targs(e[4])})", name[7:], "copy-source")

    ctx.pmap([("writing accessors", section, ("handle_put", PUTS, "v", None)),
              ("reading accessors", section, ("handle_take", TAKES, "out", "out")),
              ("external storage", pointers, ()), ("copies", copies, ())])
