"""P13 copied or moved interfaces refer to their own storage."""
import itertools
from engine import terms as T
from engine import handles as H
from engine.util import *

HPP = "hardware_interface/include/hardware_interface/handle.hpp"


def run(ctx):
    db = ctx.db
    ctx.rule("Copies and moves (construction, assignment, self-assignment, for values stored in the interface and outside it) are interpreted abstractly with every "
             "object at its own location: values written to either side afterwards must show up exactly where the copied storage says, and no lock may be requested "
             "twice by one operation.")

    V1, V2, V3 = ("sym", "v1"), ("sym", "v2"), ("sym", "v3")

    def show(x):
        return T.show(x) if x is not None else "nothing"

    def go(name, f, **kw):
        I, outs = H.run(ctx, f, **kw)
        rest = []
        for k, s, v in outs:
            for e in H.events(s):
                if e[0] == "lock" and not e[5]:
                    ctx.check(not e[6] and not any(x is not e and x[0] == "lock" and x[1] == e[1] and x[3:5] == e[3:5] and twice(H.events(s), x, e) for x in H.events(s)),
                              "no lock is requested twice by one operation", f"{HPP}:{e[4]} ({strip_targs(e[3])})", name, f"{name}-relock")
            if k == "throw":
                ctx.bad("interfaces can be used after being copied or moved", where(f), f"{name}: raises {v}", f"{name}-throw")
            else:
                rest.append((I, s))
        return rest

    def twice(ev, a, b):
        # two requests of the same lock by one statement with nothing in between but lock requests
        i, j = sorted((idx(ev, a), idx(ev, b)))
        return all(e[0] == "lock" for e in ev[i:j + 1]) and a[2] == "lock" and b[2] == "lock" and i != j

    def idx(ev, a):
        return next(i for i, e in enumerate(ev) if e is a)

    def expect(f, what, key, s, **want):
        for o, w in want.items():
            x = H.final(s, o)
            names = {"o1": "the target has the source's value", "o2": "the target's value is independent of the source",
                     "o3": "the source keeps its own value", "o4": "the target can be written", "n": "the target has the source's name",
                     "t": "the target has the source's data type"}
            ctx.check(x == w, names.get(o, o), where(f), f"{what}: {show(x)} instead of {show(w)}", f"{key}-{o}")

    def typed(name, what, **want):
        for ty, f in H.by_type(db, name, "v1").items():
            d = [x for x, t in H.TYPES.items() if t == ty][0]
            olds = ["double", "bool", d] if any(p["n"] == "type0" for p in f["params"]) else [None]
            for o in dict.fromkeys(olds):
                kw = {"type": d}
                if o:
                    kw["type0"] = o
                for I, s in go(name, f, **kw):
                    w = dict(want)
                    if "n" in w:
                        w["n"], w["t"] = T.c("p/i"), T.c(d)
                    expect(f, f"{what} of {d}" + (f" onto {o}" if o else ""), name, s, **w)

    def selfs():
        for ty, f in H.by_type(db, "handle_self", "v1").items():
            d = [x for x, t in H.TYPES.items() if t == ty][0]
            for how in (0, 1):
                for I, s in go("handle_self", f, type=d, how=how):
                    what = f"{'copy' if how == 0 else 'move'} of {d} onto itself"
                    x = H.final(s, "o1")
                    ctx.check(x == V1, "assigning an interface to itself keeps its value", where(f), f"{what}: {show(x)}", "self-value")
                    ctx.check(H.final(s, "n") == T.c("p/i"), "assigning an interface to itself keeps its name", where(f), what, "self-name")

    def external():
        f = H.driver(db, "handle_ptr_copy")[0]
        for how, what in enumerate(("copy construction", "move construction", "copy assignment", "move assignment", "copy assignment onto bool", "move assignment onto bool")):
            I, outs = H.run(ctx, f, how=how)
            for k, s, v in outs:
                if I.truth(s, ("sym", "p")) is False:
                    continue
                if k == "throw":
                    ctx.bad("interfaces can be used after being copied or moved", where(f), f"{what}: raises {v}", "ptr-throw")
                    continue
                ctx.check(H.final(s, "o1") == V1, "external storage is shared by the target", where(f), f"{what}: reads {show(H.final(s, 'o1'))}", "ptr-o1")
                ctx.check(H.final(s, "o2") == V2, "external storage is shared by the target", where(f), f"{what}: the written value does not arrive ({show(H.final(s, 'o2'))})", "ptr-o2")

    cp = dict(o1=V1, o2=V1, o3=V2, o4=V3, n=True)
    mv = dict(o1=V1, o4=V3, n=True)
    ctx.pmap([("copy construction", lambda: typed("handle_copy_ctor", "copy", **cp), ()), ("move construction", lambda: typed("handle_move_ctor", "move", **mv), ()),
              ("move of commands", lambda: typed("handle_move_cmd", "move", **mv), ()), ("copy assignment", lambda: typed("handle_copy_asg", "copy assignment", **cp), ()),
              ("move assignment", lambda: typed("handle_move_asg", "move assignment", **mv), ()),
              ("reuse", lambda: typed("handle_move_reuse", "move and reuse of the source", o1=V1), ()),
              ("self assignment", selfs, ()), ("external storage", external, ())])
