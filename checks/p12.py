"""P12 interface values are never silently reinterpreted."""
from engine import terms as T
from engine import handles as H
from engine.util import *
from checks.p11 import PUTS, TAKES


def run(ctx):
    db = ctx.db
    ctx.rule("Every accessor is interpreted abstractly for every pair of accessed and declared type: with matching types the value read is exactly the symbol that was "
             "written before, with any other type (except reading a boolean as a number) the access must raise a std::runtime_error and change nothing.")

    def raised(I, k, v):
        return k == "throw" and "std::runtime_error" in I.bases(v[0])

    def got(s, k, o):
        return H.owned_all(s) if o else None

    def locks(s):
        return [b for a, b in s.facts.items() if a[0] == "owns"]

    def single(name, modes, par):
        for ty, f in H.by_type(db, name, par).items():
            for d, dt in H.TYPES.items():
                for how, (txt, _) in modes.items():
                    I, outs = H.run(ctx, f, type=d, how=how)
                    legal = ty == dt or (name == "handle_take" and ty == "double" and d == "bool")
                    for k, s, v in outs:
                        if False in locks(s):
                            continue
                        what = f"{txt} with {ty} on {d}"
                        verb = "write" if "put" in name else "read"
                        if legal:
                            ctx.check(k == "ret" and (T.isc(v) and v[1] is True), f"a {verb} with the declared type succeeds", where(f), f"{what}: {'raises ' + str(v) if k == 'throw' else T.show(v)}", f"{name}-legal")
                        else:
                            ctx.check(raised(I, k, v), f"a {verb} with another type than the declared one raises", where(f),
                                      f"{what}: {'raises ' + str(v[0]) if k == 'throw' else 'returns ' + T.show(v)}", f"{name}-illegal")
                            w = [e for e in H.events(s) if e[0] == "write" and not e[2]]
                            ctx.check(not w, "a refused access leaves the value alone", where(f), what, f"{name}-dirty")
                            if name == "handle_take":
                                ctx.check(H.final(s, "out") is None, "a refused access leaves the caller's variable alone", where(f), what, f"{name}-out")

    def same(f, v, x):
        return x == v

    def pairs():
        for f in H.driver(db, "handle_rw"):
            ty, uy = H.vtype(f, "v"), H.vtype(f, "out")
            for d, dt in H.TYPES.items():
                if dt != ty:
                    continue
                for w in PUTS:
                    for r in TAKES:
                        I, outs = H.run(ctx, f, type=d, w=w, r=r)
                        for k, s, v in outs:
                            if False in locks(s):
                                continue
                            what = f"{PUTS[w][0]}, then {TAKES[r][0]}" + (f" as {uy}" if uy != ty else "") + f" on {d}"
                            if k == "throw":
                                ctx.bad("a written value can be read back", where(f), f"{what}: raises {v}", f"rw-{ty}-throw")
                                continue
                            x = H.final(s, "out")
                            want = [("sym", "v")] if ty == uy else [("b2d", ("sym", "v"))]
                            if w == 3 and ty == "double" and x is not None and x[0] == "ret":
                                want.append(x)  # the limiter's result, see P15
                            ctx.check(x in want, "a successful read returns exactly the value last written", where(f), f"{what}: yields {T.show(x) if x else 'nothing'}", f"rw-{ty}-value")

    def external():
        f = H.driver(db, "handle_ptr_rw")[0]
        for w in PUTS:
            for r in TAKES:
                I, outs = H.run(ctx, f, w=w, r=r)
                for k, s, v in outs:
                    if False in locks(s):
                        continue
                    null = I.truth(s, ("sym", "p"))
                    what = f"{PUTS[w][0]}, then {TAKES[r][0]} on external storage"
                    if null is False:
                        ctx.check(raised(I, k, v), "accessing an interface without storage raises", where(f), what, "ptr-null")
                        continue
                    if k == "throw":
                        ctx.bad("externally stored values can be accessed", where(f), f"{what}: raises {v}", "ptr-throw")
                        continue
                    x = H.final(s, "out")
                    st = s.heap.get(("sym", "p"), s.heap.get(("deref", ("sym", "p"))))
                    ctx.check(x == ("sym", "v") or (w == 3 and x and x[0] == "ret"), "a successful read returns exactly the value last written", where(f), f"{what}: yields {T.show(x) if x else 'nothing'}", "ptr-value")
                    ctx.check(st == x, "a write reaches the external storage", where(f), f"{what}: stores {T.show(st) if st else 'nothing'}", "ptr-store")
        for r in TAKES:
            f = H.driver(db, "handle_ptr_take")[0]
            I, outs = H.run(ctx, f, r=r)
            for k, s, v in outs:
                if False in locks(s):
                    continue
                if I.truth(s, ("sym", "p")) is False:
                    ctx.check(raised(I, k, v), "accessing an interface without storage raises", where(f), TAKES[r][0], "ptr-null")
                elif k == "ret":
                    x = H.final(s, "out")
                    ctx.check(x in (("deref", ("sym", "p")), ("sym", "p")), "a read yields the external value", where(f), f"{TAKES[r][0]}: yields {T.show(x) if x else 'nothing'}", "ptr-read")
        for name, modes, par in (("handle_none_put", PUTS, "w"), ("handle_none_take", TAKES, "r")):
            f = H.driver(db, name)[0]
            for how in modes:
                I, outs = H.run(ctx, f, **{par: how})
                for k, s, v in outs:
                    if False not in locks(s):
                        ctx.check(raised(I, k, v), "accessing an interface without storage raises", where(f), modes[how][0], "none")

    PARSE = {"double": "stod", "float": "stof", "unsigned char": "stoui8", "signed char": "stoi8", "unsigned short": "stoui16", "short": "stoi16",
             "unsigned int": "stoui32", "int": "stoi32"}

    def parse(x):
        """(parser applied to the text, whether anything was done to its result)"""
        if x[0] == "call" and len(x) == 3 and x[2] == ("sym", "init"):
            return x[1].split("::")[-1]
        return None

    def others(x):
        """parsers applied to the text anywhere in a value"""
        r = []
        has_sub(x, lambda t: bool(parse(t)) and r.append(parse(t)) or False)
        return r

    def initial():
        for ty, f in H.by_type(db, "handle_init", "out").items():
            values(ty, f)
        for f in H.driver(db, "handle_init_desc"):
            values(H.vtype(f, "out"), f, True)

    def values(ty, f, described=False):
        INIT = ("sym", "init")
        if True:
            d = [x for x, t in H.TYPES.items() if t == ty][0]
            I, outs = H.run(ctx, f, type=d)
            for k, s, v in outs:
                empty = I.truth(s, T.lt(T.c(0), T.size(INIT))) is False
                x = H.final(s, "out")
                if k != "ret" or x is None:
                    continue
                if described:
                    ctx.check(H.final(s, "n") == T.c("p/i"), "an interface has the name of its description", where(f), d, "init-name")
                    ctx.check(H.final(s, "t") == T.c(d), "an interface has the data type of its description", where(f), d, "init-type")
                if described and not has_sub(x, lambda t: t == INIT) and not any(has_sub(a, lambda t: t == INIT) for a in s.facts):
                    ctx.bad("an interface starts with its declared initial value", where(f), f"{d}: {T.show(x)} whatever the declared initial value is", "init-lost")
                    continue
                if empty:
                    continue
                if ty == "bool":
                    t = [b for a, b in s.facts.items() if a[0] == "==" and T.c("true") in a[1:] and T.contains(a, INIT)]
                    if t:
                        ctx.check(x == T.c(t[0]), "an interface starts with its declared initial value", where(f), f"bool: {T.show(x)} for {'true' if t[0] else 'false'}", "init-bool")
                    continue
                bare = x
                while bare[0] == "narrow":
                    bare = bare[-1]
                p = parse(bare)
                if p is None and any(o in PARSE.values() and o != PARSE[ty] for o in others(bare)):
                    ctx.bad("an initial value is parsed as a value of the declared type", where(f), f"{d}: {T.show(x)[:120]}", f"init-{ty}-parse")
                    continue
                if p is None:
                    ctx.undecided("initial value of " + d, T.show(x)[:120])
                    continue
                ctx.check(p == PARSE[ty], "an initial value is parsed as a value of the declared type", where(f), f"{d}: {p}", f"init-{ty}-parse")
                ctx.check(x == bare, "an interface starts with its declared initial value", where(f), f"{d}: {T.show(x)}", f"init-{ty}-cast")

    ctx.pmap([("initial values", initial, ()), ("single writes", single, ("handle_put", PUTS, "v")), ("single reads", single, ("handle_take", TAKES, "out")),
              ("write and read", pairs, ()), ("external storage", external, ())])
