"""P01 interface data types: name table, castability and casts agree; initial values are parsed with
the parser of the declared type into the alternative of the declared type."""
from engine import terms as T
from engine.util import *

# C++ alternative the value variant must hold for each data type name
ALT = {"double": "double", "bool": "bool", "float32": "float", "uint8": "unsigned char", "int8": "signed char",
       "uint16": "unsigned short", "int16": "short", "uint32": "unsigned int", "int32": "int"}
PARSER = {"double": ("stod",), "bool": ("parse_bool",), "float32": ("stof", "stod"), "uint8": ("stoui8",),
          "int8": ("stoi8",), "uint16": ("stoui16",), "int16": ("stoi16",), "uint32": ("stoui32",),
          "int32": ("stoi32",)}


def enum_values(db):
    for q, e in db.enums.items():
        if q.endswith("HandleDataType::Value"):
            return [(v["n"], v["v"], q) for v in e["vals"]]
    raise AnchorMissing("HandleDataType::Value")


def run(ctx):
    db = ctx.db
    ctx.rule("Finite-domain constant propagation of the data-type class over every enumerator: the name of each "
             "type maps back to that type, every type declared castable has a cast that reads exactly the variant "
             "alternative of that type, every other type's cast throws, and the interface constructor fills the "
             "alternative of the declared type from the parser of that type (guarded value-flow per type name).")
    vals = enum_values(db)
    ns = vals[0][2].rsplit("::", 1)[0]
    hdt = [f for f in db.fns.values() if f.get("kind") == "ctor" and f["cls"] == ns and len(f["params"]) == 1 and "basic_string" in f["params"][0]["t"]]
    if not hdt:
        raise AnchorMissing("HandleDataType(std::string)")
    ctor = hdt[0]

    def value_of(name):
        I = Exact(db)
        outs = I.run(ctor, args={0: name})
        ctx.saw_interp(I, outs)
        return {I.read(s, ("fld", ("this",), "value_")) for k, s, v in outs if k == "ret"}, outs

    def field_name():
        return "value_"

    def tables():
        names = {}
        to_s = db.one("HandleDataType::to_string")
        for n, v, q in vals:
            I = Exact(db)
            outs = I.run(to_s, state=set_this(value_=T.enumv(ns + "::" + n, v)))
            ctx.saw_interp(I, outs)
            got = {val for k, s, val in outs if k == "ret"}
            if len(got) != 1 or not T.isc(next(iter(got))):
                ctx.undecided("name of " + n, "not a constant")
                continue
            names[n] = next(iter(got))[1]
        seen = {}
        for n, v, q in vals:
            nm = names.get(n)
            if nm is None:
                continue
            if n == "UNKNOWN":
                continue
            if nm in seen:
                ctx.bad(f"names of distinct types differ ({n})", where(to_s), f'{n} and {seen[nm]} are both named "{nm}"', "dupname-" + n)
            seen[nm] = n
            ctx.check(nm.lower() == n.lower(), f"{n} is reported under its own name", where(to_s), f'{n}.to_string() is "{nm}"', "name-" + n)
            got, _ = value_of(T.c(nm))
            ctx.check({g[2] if g[0] == "enum" else g for g in got} == {v}, f'type name "{nm}" denotes {n}', where(ctor),
                      f'"{nm}" parses to {[T.show(g) for g in got]}', "parse-" + n)
        got, _ = value_of(T.c("no_such_type"))
        unk = [v for n, v, q in vals if n == "UNKNOWN"]
        ctx.check({g[2] if g[0] == "enum" else g for g in got} == set(unk), "an unknown name denotes the unknown type", where(ctor),
                  f"parses to {[T.show(g) for g in got]}", "parse-unknown")
        # any unlisted name: the path on which every comparison fails
        I = Exact(db)
        outs = I.run(ctor)
        for k, s, v in outs:
            if k == "ret" and not any(b is True for a, b in s.facts.items() if a[0] != "val"):
                val = I.read(s, ("fld", ("this",), "value_"))
                ctx.check(val[0] == "enum" and val[2] in unk, "every unlisted name denotes the unknown type", where(ctor), T.show(val), "parse-default")

    def casts():
        cast = db.one("HandleDataType::cast_to_double")
        able = db.one("HandleDataType::is_castable_to_double")
        for n, v, q in vals:
            st = lambda: set_this(value_=T.enumv(ns + "::" + n, v))
            I = Exact(db)
            o1 = I.run(able, state=st())
            I2 = Exact(db)
            o2 = I2.run(cast, state=st())
            ctx.saw_interp(I, o1)
            ctx.saw_interp(I2, o2)
            av = {x for k, s, x in o1}
            if len(av) != 1 or not T.isc(next(iter(av))):
                ctx.undecided("castable " + n, "not constant")
                continue
            can = next(iter(av))[1]
            throws = any(k == "throw" for k, s, x in o2)
            rets = [x for k, s, x in o2 if k == "ret"]
            ctx.check(can == (n != "UNKNOWN"), f"{n}: declared castable exactly when a known type", where(able), f"castable={can}", "castable-" + n)
            if can:
                ctx.check(not throws and rets, f"{n}: castable types are cast without raising", where(cast), "cast raises", "castthrow-" + n)
                want = ALT.get(n.lower())
                for x in rets:
                    gets = [t for t in T.subterms(x) if t[0] == "get"]
                    ctx.check(len(gets) == 1 and (want is None or gets[0][1] == want) and is_plain(x),
                              f"{n}: the cast reads the value of that type unchanged", where(cast), f"returns {T.show(x)}", "castread-" + n)
            else:
                ctx.check(throws and not rets, f"{n}: a non-castable type's cast raises", where(cast), f"returns {[T.show(x) for x in rets]}", "castnothrow-" + n)

    def is_plain(x):
        while x[0] in ("b2d", "cast", "ret_cast"):
            x = x[-1]
        return x[0] == "get"

    def initial():
        ctors = [f for f in db.fns.values() if f.get("kind") == "ctor" and f["q"].endswith("hardware_interface::Handle::Handle") and len(f["params"]) == 4]
        if not ctors:
            raise AnchorMissing("Handle(prefix, interface, type, initial)")
        hc = ctors[0]
        for nm, alt in ALT.items():
            class W(Exact):
                K = 2

                def want_inline(self, fn, call):
                    return fn["n"] not in ("stod", "stof", "parse_bool", "stoui8", "stoi8", "stoui16", "stoi16", "stoui32", "stoi32", "stoi_generic", "stoui_generic")

                def on_write(self, s, loc, val, node):
                    if loc == ("fld", ("this",), "value_") and node is not None and node.get("k") == "call":
                        s.tags["alt"] = ((node.get("ta") or ["?"])[0])
            I = W(db)
            outs = I.run(hc, args={"data_type": T.c(nm), 2: T.c(nm)})
            ctx.saw_interp(I, outs)
            init = ("sym", hc["params"][3]["n"])
            if not any(k == "ret" for k, s, v in outs):
                ctx.bad(f'interfaces of type "{nm}" can be created', where(hc), "constructor always raises", "init-reject-" + nm)
                continue
            for k, s, v in outs:
                if k != "ret":
                    continue
                val = I.read(s, ("fld", ("this",), "value_"))
                ptr = I.read(s, ("fld", ("this",), "value_ptr_"))
                used = [t for t in T.subterms(val) if t[0] == "call" and T.contains(t, init)]
                if used:
                    names = {t[1].split("::")[-1] for t in used}
                    ctx.check(names & set(PARSER[nm]), f'initial value of type "{nm}" goes through the parser of that type', where(hc),
                              f"parsed with {sorted(names)}", "init-parser-" + nm)
                alt_got = s.tags.get("alt", "?")
                if alt_got != "?":
                    ctx.check(alt_got == alt, f'an interface of type "{nm}" holds a value of that type', where(hc), f"holds {alt_got}", "init-alt-" + nm)
                empty = s.facts.get(("<", T.c(0), ("size", init)))
                if empty is True:
                    ctx.check(bool(used), f'a given initial value of type "{nm}" is used', where(hc), f"value is {T.show(val)}", "init-used-" + nm)
                if nm == "double":
                    ok = T.contains(ptr, ("fld", ("this",), "value_")) or ptr[0] in ("getif", "addr")
                    ctx.check(ok and ptr != T.NULL, "a double interface's value pointer refers to its own storage", where(hc), f"pointer is {T.show(ptr)}", "init-ptr")
                else:
                    ctx.check(ptr == T.NULL, f'a "{nm}" interface has no double pointer', where(hc), f"pointer is {T.show(ptr)}", "init-ptr-" + nm)
        I = Exact(db)
        outs = I.run(hc, args={2: T.c("no_such_type")})
        ctx.check(outs and all(k == "throw" for k, s, v in outs), "an interface of unknown type is rejected", where(hc), "constructor accepts it", "init-unknown")

    ctx.section("name table", tables)
    ctx.section("casts", casts)
    ctx.section("initial values", initial)
