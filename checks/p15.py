"""P15 commands set through a loan pass the limiter."""
from engine import terms as T
from engine import handles as H
from engine.util import *


def run(ctx):
    db = ctx.db
    ctx.rule("Drivers that register a limiter and set a command (directly, through a loan, after a move of the interface) are interpreted abstractly: the value found "
             "afterwards must be the result of one call of exactly that limiter with exactly that command, and the limited flag the one that call produced.")
    V, LIM = ("sym", "v"), ("sym", "lim")
    W = where(db.one("CommandInterface::set_limited_value"))

    def locks(s):
        return [b for a, b in s.facts.items() if a[0] == "owns"]

    def check(I, outs, what, key):
        for k, s, v in outs:
            if k != "ret":
                ctx.bad("a limited command can be set", W, f"{what}: raises {v}", f"{key}-throw")
                continue
            calls = [e for e in H.events(s) if e[0] == "call"]
            out, flag = H.final(s, "out"), H.final(s, "flag")
            if locks(s) and True not in locks(s)[-1:]:
                ctx.check(T.isc(v) and v[1] is False, "a command that was not stored is reported", W, what, f"{key}-fail")
                ctx.check(out != V and not (out and out[0] == "ret" and out[1] != "limited" and T.contains(out, V)), "a failed attempt stores nothing", W, f"{what}: {T.show(out)}", f"{key}-dirty")
                continue
            ctx.check(T.isc(v) and v[1] is True, "a stored command is reported as such", W, what, f"{key}-ok")
            ctx.check(calls and all(e[1] == LIM for e in calls) and all(e[2][:1] == (V,) for e in calls), "a command is passed to the registered limiter", W,
                      f"{what}: calls {[(T.show(e[1]), [T.show(a) for a in e[2][:1]]) for e in calls]}", f"{key}-call")
            last = out is not None and out[0] == "ret" and out[1] == "limited" and out[3] == LIM and out[4] == V
            ctx.check(last, "the stored command is the limiter's result", W, f"{what}: stores {T.show(out) if out else 'nothing'}", f"{key}-value")
            if last:
                ctx.check(flag == ("ret", "flag", out[2]), "the limited flag is that of the limiter's call", W, f"{what}: {T.show(flag) if flag else 'nothing'}", f"{key}-flag")

    def limited():
        f = H.driver(db, "limited_set")[0]
        for how, what, tries in ((0, "setting a limited value", 1), (1, "setting a value through a loan", 1), (1, "setting a value through a loan with 2 tries", 2),
                                 (1, "setting a value through a loan with 3 tries", 3)):
            I, outs = H.run(ctx, f, how=how, type="double", tries=tries)
            check(I, outs, what, f"set{how}")
            if tries > 1:
                continue
            for d in H.TYPES:
                if d == "double":
                    continue
                I, outs = H.run(ctx, f, how=how, type=d, tries=1)
                for k, s, v in outs:
                    if False not in locks(s):
                        ctx.check(k == "throw", "a number is not stored in an interface of another type", W, f"{what} on {d}", f"set{how}-type")

    def moved():
        I, outs = H.run(ctx, H.driver(db, "limited_moved")[0])
        check(I, outs, "setting a limited value after moving the interface", "moved")

    def default():
        I, outs = H.run(ctx, H.driver(db, "limited_default")[0])
        for k, s, v in outs:
            if k != "ret":
                ctx.bad("a command without limiter can be set", W, f"raises {v}", "default-throw")
            elif False not in locks(s):
                ctx.check(H.final(s, "out") == V, "without a limiter the command is stored unchanged", W, T.show(H.final(s, "out") or T.NULL), "default-value")
                ctx.check(H.final(s, "flag") == T.FALSE, "without a limiter no command counts as limited", W, T.show(H.final(s, "flag") or T.NULL), "default-flag")

    ctx.pmap([("limiter", limited, ()), ("moved", moved, ()), ("default", default, ())])
