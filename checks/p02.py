"""P02 number parsing: locale independence, whole-input consumption, integer ranges, boolean spellings."""
from engine import terms as T
from engine.util import *

RANGE = {"signed char": (-128, 127), "short": (-2**15, 2**15 - 1), "int": (-2**31, 2**31 - 1), "long": (-2**63, 2**63 - 1),
         "unsigned char": (0, 255), "unsigned short": (0, 2**16 - 1), "unsigned int": (0, 2**32 - 1),
         "unsigned long": (0, 2**64 - 1)}
LOCALE = {"stod", "stof", "stold", "strtod", "strtof", "strtold", "atof", "sscanf", "atoi", "atol", "setlocale"}


class P(Exact):
    """models of the standard conversion primitives: what they consumed and what they produced"""
    K = 1

    def on_call(self, s, cl):
        nm = cl.name
        if nm == "from_chars" and cl.fq.startswith("std::"):
            ty = cl.node["args"][2].get("t", "")
            v = ("fc", ty, cl.args[0], cl.args[1], cl.args[3] if len(cl.args) > 3 else None)
            # on failure the output is left alone; callers must test ec
            self.wr(s, cl.argl[2], v)
            return [(s, ("rec", "from_chars_result", (("ptr", ("fcptr", v)), ("ec", ("fcec", v)))))]
        if nm in ("stol", "stoul", "stoi", "stoll", "stoull", "stof", "stod", "stold") and cl.fq.startswith("std::"):
            v = ("sto", nm, cl.args[0], cl.args[2] if len(cl.args) > 2 else T.c(10))
            if len(cl.args) > 1 and cl.args[1][0] == "addr":
                self.wr(s, cl.args[1][1], ("stopos", v))
            return [(s, v)]
        if nm in ("strtol", "strtoul", "strtod", "strtof", "atof", "atoi"):
            return [(s, ("crt", nm, cl.args[0]))]
        if nm == "imbue":
            self.wr(s, cl.recv, ("imbued", cl.recvv, cl.args[0]))
            return [(s, T.c(None))]
        if nm in ("fail", "eof", "bad", "good") and "ios" in cl.cls + cl.fq:
            return [(s, ("ios", nm, cl.recvv))]
        return None


def stream_of(t):
    """('imbued' stream term) under a value read from a stream"""
    return t[1]


def run(ctx):
    db = ctx.db
    ctx.rule("Path-sensitive value-flow of every conversion function: each normal return must carry a value produced by a "
             "locale-independent primitive from the whole text, with the facts 'conversion succeeded', 'all input consumed', "
             "'finite' and, for integers, bounds inside the target type; booleans only under equality with their documented spelling.")

    def text_of(v):
        for t in T.subterms(v):
            if t[0] in ("fc", "sto", "got", "crt"):
                return t
        return None

    def real(fname):
        for fn in [f for f in db.find("hardware_interface::" + fname) if "::impl::" not in f["q"]]:
            I = P(db)
            outs = I.run(fn)
            ctx.saw_interp(I, outs)
            W = where(fn)
            sym = ("sym", fn["params"][0]["n"])
            ctx.check(any(k == "throw" for k, s, v in outs), f"{fname}: malformed text raises", W, "no path raises", fname + "-never-raises")
            for k, s, v in outs:
                if k != "ret":
                    continue
                src = text_of(v)
                if src is None:
                    if T.contains(v, sym):
                        ctx.undecided(f"{fname} return", T.show(v))
                    else:
                        ctx.bad(f"{fname}: the returned value comes from the text", W, f"returns {T.show(v)}", fname + "-const")
                    continue
                facts = s.facts
                tru = lambda t: I.truth(s, t)
                if src[0] == "crt" or src[0] == "sto":
                    ctx.bad(f"{fname}: the conversion does not depend on the process locale", W, f"uses {src[1]}", fname + "-locale")
                    continue
                fin = [a for a, b in facts.items() if a[0] == "isfinite" and b is True and T.contains(a, src)]
                rng = [a for a, b in facts.items() if a[0] in ("isnan", "isinf") and b is False and T.contains(a, src)]
                ctx.check(fin or len({a[0] for a in rng}) == 2, f"{fname}: only finite numbers are returned", W, "no finiteness test on this path", fname + "-finite")
                if src[0] == "fc":
                    _, ty, b, e, fmt = src
                    ctx.check(fname != "stod" or "float" not in ty, f"{fname}: converted at full precision", W, f"parsed as {ty}", fname + "-precision")
                    okec = any(a[0] == "==" and bb is True and ("fcec", src) in a[1:] for a, bb in facts.items()) or \
                        any(a == ("fcec", src) and bb is False for a, bb in facts.items())
                    ctx.check(okec, f"{fname}: a failed conversion never yields a value", W, "the error code is not tested on this path", fname + "-ec")
                    end = T.eq(("fcptr", src), e)
                    ctx.check(tru(end) is True, f"{fname}: the whole text is consumed", W, "trailing characters are accepted on this path", fname + "-whole")
                    ctx.check(T.contains(e, ("size", sym)) or e[0] == "end", f"{fname}: conversion covers the text to its end", W, f"end is {T.show(e)}", fname + "-end")
                    if b not in (sym, ("begin", sym)) and not (b[0] == "begin" and b[1] == sym):
                        first = [a for a, bb in facts.items() if bb is True and a[0] == "==" and T.c(43) in a[1:]]
                        nosign = [a for a, bb in facts.items() if bb is False and a[0] == "==" and T.c(45) in a[1:]]
                        ctx.check(first, f"{fname}: no leading character but one plus sign is skipped", W, f"starts at {T.show(b)}", fname + "-skip")
                        ctx.check(nosign, f"{fname}: a second sign is rejected", W, "a minus sign after the plus sign is accepted", fname + "-twosigns")
                    if fmt is not None and fmt[0] == "enum":
                        ctx.check(fmt[1].endswith(("general",)) or fmt[2] == 3, f"{fname}: decimal notation", W, T.show(fmt), fname + "-fmt")
                elif src[0] == "got":
                    st = src[1]
                    ctx.check(any(t[0] == "imbued" and "classic" in str(t[2]) for t in T.subterms(st)), f"{fname}: the conversion does not depend on the process locale", W,
                              "stream without the classic locale", fname + "-locale")
                    fl = {a[1]: b for a, b in facts.items() if a[0] == "ios"}
                    ctx.check(fl.get("eof") is True, f"{fname}: the whole text is consumed", W, "end of input not tested", fname + "-whole")
                    ctx.check(fl.get("fail") is False or fl.get("good") is True or any(a[0] == "good" and b for a, b in facts.items()),
                              f"{fname}: a failed conversion never yields a value", W, "stream failure not tested", fname + "-ec")

    def integer(fn):
        ty = fn["ret"]
        if ty not in RANGE:
            return
        lo, hi = RANGE[ty]
        I = P(db)
        outs = I.run(fn)
        ctx.saw_interp(I, outs)
        W = where(fn)
        nm = f"{fn['n']} ({ty})"
        key = fn["n"] + "-" + ty.replace(" ", "")
        sym = ("sym", fn["params"][0]["n"])
        for k, s, v in outs:
            if k != "ret":
                continue
            src = text_of(v)
            if src is None:
                ctx.undecided(nm, T.show(v))
                continue
            if src[0] == "fc":
                val, b, e = src, src[2], src[3]
                ctx.check(I.truth(s, T.eq(("fcptr", src), e)) is True, f"{nm}: the whole text is consumed", W, "", key + "-whole")
            elif src[0] == "sto":
                whole = I.truth(s, T.eq(("stopos", src), ("size", sym)))
                if whole is not True:
                    # >= size is equivalent, the position never exceeds the size
                    whole = I.truth(s, T.lt(("stopos", src), ("size", sym))) is False
                ctx.check(whole, f"{nm}: the whole text is consumed", W, "trailing characters are accepted on this path", key + "-whole")
                ctx.check(src[3] == T.c(10) or not T.isc(src[3]), f"{nm}: decimal notation", W, f"base {T.show(src[3])}", key + "-base")
                if src[1] in ("stoi",) and max(abs(lo), hi) > 2**31:
                    ctx.bad(f"{nm}: the primitive covers the target range", W, src[1], key + "-narrow")
                if src[1].startswith("stou"):
                    nosign = any((T.c(45) in T.subterms(a) or T.c("-") in T.subterms(a)) for a in s.facts if a[0] != "val")
                    zero = num_bounds(s.facts, src)[1] == 0
                    ctx.check(nosign or zero, f"{nm}: negative numbers are not wrapped around", W,
                              f"std::{src[1]} accepts a minus sign and wraps; no path fact excludes it", key + "-wrap")
            else:
                ctx.undecided(nm, T.show(v))
                continue
            if v != src and v[0] not in ("sto", "fc"):
                ctx.undecided(nm + " value", T.show(v))
                continue
            plo, phi = {"stol": RANGE["long"], "stoll": RANGE["long"], "stoi": RANGE["int"], "stoul": RANGE["unsigned long"],
                        "stoull": RANGE["unsigned long"]}.get(src[1], (None, None)) if src[0] == "sto" else RANGE.get(src[1], (None, None))
            if plo is None:
                ctx.undecided(nm + " range", str(src[1]))
                continue
            blo, bhi = num_bounds(s.facts, src)
            blo = plo if blo is None else max(blo, plo)
            bhi = phi if bhi is None else min(bhi, phi)
            ctx.check(blo >= lo and bhi <= hi, f"{nm}: only values of the target range are returned", W,
                      f"values in [{blo}, {bhi}] reach the return, the type holds [{lo}, {hi}]", key + "-range")

    def boolean():
        fn = db.one("hardware_interface::parse_bool")
        I = P(db)
        outs = I.run(fn)
        ctx.saw_interp(I, outs)
        W = where(fn)
        ctx.check(any(k == "throw" for k, s, v in outs), "unknown boolean spellings raise", W, "no path raises", "bool-never-raises")
        for k, s, v in outs:
            pos = [[y[1] for y in a[1:] if T.isc(y) and isinstance(y[1], str)] for a, b in s.facts.items() if b is True and a[0] == "=="]
            spell = {x.lower() for l in pos for x in l}
            neg = {y[1].lower() for a, b in s.facts.items() if b is False and a[0] == "==" for y in a[1:] if T.isc(y) and isinstance(y[1], str)}
            unknown = any(a[0] not in ("==", "val", "<") for a in s.facts)
            if k == "ret":
                r = v[1] if T.isc(v) else I.truth(s, v)
                if r is None or (unknown and not spell):
                    ctx.undecided("parse_bool", T.show(v))
                    continue
                ctx.check(spell and spell <= {"true" if r else "false"}, f"{r} is returned for its documented spelling only", W,
                          f"returns {r} for {sorted(spell) or 'any text'}", f"bool-{r}")
            elif not unknown:
                ctx.check(not (spell & {"true", "false"}), "documented spellings do not raise", W, f"raises for {spell}", "bool-throw")
        tl = db.one("hardware_interface::to_lower_case")
        lowered = [t for k, s, v in outs for a in s.facts for t in T.subterms(a) if t[0] in ("tolower", "toupper")]
        ctx.saw(tl)
        ctx.check(not any(t[0] == "toupper" for t in lowered), "lower-casing lower-cases", where(tl), "uses toupper", "bool-lower")

    def arrays():
        for fn in db.find("hardware_interface::parse_array"):
            elem = fn["ret"]
            I = P(db)
            outs = I.run(fn)
            ctx.saw_interp(I, outs)
            W = where(fn)
            for k, s, v in outs:
                if k != "ret" or v[0] != "vec":
                    continue
                for x in v[1]:
                    src = text_of(x)
                    if "vector<int" in elem:
                        if src is None:
                            ctx.undecided("parse_array<int> element", T.show(x))
                            continue
                        lo, hi = num_bounds(s.facts, src)
                        ctx.check(lo is not None and hi is not None and lo >= -2**31 and hi <= 2**31 - 1, "integer array elements are in range", W,
                                  f"a number in [{lo}, {hi}] is converted to int", "array-int-range")
                        whole = any(b is True and a[0] == "==" and any(t[0] in ("trunc", "floor", "round", "call") and T.contains(t, src) for t in a[1:]) for a, b in s.facts.items()) \
                            or src[0] in ("sto",)
                        ctx.check(whole, "integer array elements are integers in the text", W, "a fractional number is truncated silently", "array-int-frac")
                    elif "vector<bool" in elem and T.isc(x):
                        want = "true" if x[1] else "false"
                        ctx.check(any(b is True and a[0] == "==" and T.c(want) in a[1:] for a, b in s.facts.items()), "boolean array elements are parsed by their spelling", W,
                                  "no matching spelling", "array-bool")
                    elif "vector<double" in elem or "vector<float" in elem:
                        ctx.check(src is not None, "real array elements are parsed from their text", W, T.show(x), "array-real")

    def locale_lint():
        n = 0
        for f in db.fns.values():
            for call in calls_in(f, lambda c: True):
                fq = call.get("fq") or ""
                if call.get("n") in LOCALE:
                    n += 1
                    ctx.check(not (fq.startswith("std::") or "::" not in fq), "no locale-dependent text to real conversion", where(f, call["l"]), fq, "lint-" + f["q"] + "-" + call["n"])
        ctx.ok(f"locale lint over {len(db.fns)} functions")

    for nm in ("stod", "stof"):
        ctx.section(nm, real, nm)
    for f in db.find("stoi_generic") + db.find("stoui_generic"):
        ctx.section(f["n"] + f["ret"], integer, f)
    for nm, ty in (("stoi8", "signed char"), ("stoi16", "short"), ("stoi32", "int"), ("stoui8", "unsigned char"),
                   ("stoui16", "unsigned short"), ("stoui32", "unsigned int")):
        def named(nm=nm, ty=ty):
            f = db.one("hardware_interface::" + nm)
            ctx.check(f["ret"] == ty, f"{nm} returns its type", where(f), f["ret"], nm + "-type")
            integer(f)
        ctx.section(nm, named)
    ctx.section("parse_bool", boolean)
    ctx.section("parse_array", arrays)
    ctx.section("locale", locale_lint)
