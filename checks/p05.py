"""P05 ordered interface selection."""
from engine import terms as T
from engine.util import *
from checks.p04 import facts_text


class G(Exact):
    K = 2
    LIMIT = 30000

    def want_inline(self, fn, call):
        return call.name not in ("get_name", "get_prefix_name", "get_interface_name")


def run(ctx):
    db = ctx.db
    ctx.rule("The selection is interpreted abstractly with up to two symbolic names and two symbolic interfaces: an interface may only be appended "
             "under facts establishing that it matches the current name, appended elements follow the order of the names, and success is "
             "returned only if every name was matched.")
    fs = db.find("controller_interface::get_ordered_interfaces")
    if not fs:
        raise AnchorMissing("get_ordered_interfaces")

    def go(fn):
        W = where(fn)
        un, names, ty, out = (("sym", p["n"]) for p in fn["params"])
        I = G(db)
        outs = I.run(fn, args={3: ("vec", ())})
        ctx.saw_interp(I, outs)

        def getter(i, g):
            for t in pool:
                if t[1].split("::")[-1] == g and len(t) == 3 and (t[2] == T.index(un, T.c(i))):
                    return t
            return ("call", g, T.index(un, T.c(i)))

        for k, s, v in outs:
            if k != "ret":
                continue
            pool = {t for a in s.facts for t in T.subterms(a) if t[0] == "call" and str(t[1]).split("::")[-1] in ("get_name", "get_prefix_name", "get_interface_name")}
            loc = [l for l in s.heap if l[0] == "var" and l[1] == fn["params"][3]["n"]]
            fin = I.read(s, loc[0]) if loc else ("vec", ())
            if fin[0] != "vec":
                ctx.undecided("result list", T.show(fin))
                continue
            app = []
            for e in fin[1]:
                t = e[1] if e[0] == "addr" else e
                app.append(t)
            nm, nn = count(s.facts, names)
            im, inn = count(s.facts, un)
            tyne = s.facts.get(("<", T.c(0), ("size", ty)))

            def match(n, i):
                name = T.index(names, T.c(n))
                full, pre, it = getter(i, "get_name"), getter(i, "get_prefix_name"), getter(i, "get_interface_name")
                tr = lambda t: I.truth(s, t)
                a = tr(T.eq(name, full))
                b1, b2 = tr(T.eq(name, pre)), tr(T.eq(ty, it))
                c0 = tr(T.eq(T.cat(name, T.c("/"), ty), full))
                if tyne is False:
                    return a
                typed = True if (b1 and b2) or c0 else (False if (b1 is False or b2 is False) and c0 is False else None)
                if tyne is True:
                    return typed
                return typed if typed is not None and typed == a else None

            M = {(n, i): match(n, i) for n in range(nm) for i in range(im)}
            # an interface has one full name: two names cannot both match it, nor two interfaces one name
            clash = any(M.get((n, i)) and M.get((n2, i2)) and ((n == n2) != (i == i2)) for n in range(nm) for i in range(im) for n2 in range(nm) for i2 in range(im))
            pos = []
            for t in app:
                idx = [i for i in range(im) if t in (T.index(un, T.c(i)), ("idx", un, T.c(i)), ("idx", ("sym", un[1]), T.c(i)))]
                if not idx:
                    pos = None
                    break
                pos.append(idx[0])
            if pos is None:
                ctx.undecided("result list", str([T.show(t) for t in app]))
                continue
            # assign appended elements to names in order
            order = []
            for i in pos:
                ns = [n for n in range(nm) if M[(n, i)]]
                ctx.check(ns, "only matching interfaces are selected", W,
                          f"interface #{i} is appended under {facts_text(s)}, which does not establish a match", "append")
                order.append(ns)
            if clash:
                continue
            flat_ = [o[0] for o in order if o]
            ctx.check(flat_ == sorted(flat_), "the result follows the order of the names", W, f"names {flat_}", "order")
            r = v[1] if T.isc(v) else I.truth(s, v)
            if r is None and v[0] == "==" and T.size(("vec", tuple(app))) in v[1:] and ("size", names) in v[1:]:
                r = None if nn is None else nn == len(app)
            if r is None:
                # size comparison with a symbolic list: decided by the known number of names
                for x, y in ((v[1], v[2]), (v[2], v[1])) if v[0] == "==" else ():
                    if x == ("size", names) and T.is_num(y) and nn is not None:
                        r = nn == y[1]
            if r is None:
                ctx.undecided("return value", T.show(v))
                continue
            if r:
                matched = {n for o in order for n in o}
                ctx.check(nn is not None and matched == set(range(nn)), "success means every name was matched", W,
                          f"returns true with {len(matched)} of {nn} names matched ({facts_text(s)})", "success")
            elif nn is not None:
                ctx.check({n for o in order for n in o} != set(range(nn)), "failure means some name was not matched", W,
                          f"returns false although every name was matched ({facts_text(s)})", "failure")

    for fn in fs:
        ctx.section("ordering " + fn["u"][-40:], go, fn)

    def contains():
        fn = db.one("controller_interface::interface_list_contains_interface_type")
        I = Exact(db)
        outs = I.run(fn)
        ctx.saw_interp(I, outs)
        lst, ty = (("sym", p["n"]) for p in fn["params"])
        for k, s, v in outs:
            m = member(I, s, lst, ty)
            if v == T.has(lst, ty):
                ctx.ok("interface type membership", where(fn))
            elif v == T.neg(T.has(lst, ty)):
                ctx.bad("interface type membership", where(fn), "negated", "contains")
            elif T.isc(v) and m is not None:
                ctx.check(v[1] == m, "interface type membership", where(fn), f"returns {v[1]} under {facts_text(s)}", "contains")
            elif T.isc(v) and all(a[0] in ("<", "==", "has", "val") for a in s.facts):
                ctx.bad("interface type membership", where(fn), f"returns {v[1]} under {facts_text(s)}", "contains")
            else:
                ctx.undecided("contains", T.show(v))

    ctx.section("contains", contains)
