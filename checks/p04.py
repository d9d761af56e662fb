"""P04 container helpers against their set semantics."""
from engine import terms as T
from engine.util import *

KNOWN = ("<", "==", "has", "val", "<=", "exists")


class H(Exact):
    K = 2


def known_only(s):
    return all(a[0] in KNOWN for a in s.facts)


def run(ctx):
    db = ctx.db
    ctx.rule("Every instantiation of the generic helpers is interpreted abstractly over symbolic containers (up to two symbolic elements of the "
             "quantified list); the returned truth value and the final container of each path must be the ones the logical specification "
             "gives under the facts of that path.")

    def each(q):
        fs = db.find("ros2_control::" + q)
        if not fs:
            raise AnchorMissing(q)
        for fn in fs:
            I = H(db)
            outs = I.run(fn)
            ctx.saw_interp(I, outs)
            for k, s, v in outs:
                if k == "throw":
                    ctx.bad(f"{q} never raises", where(fn), str(v), q + "-throws")
            yield fn, I, [(s, v) for k, s, v in outs if k == "ret"]

    def P(fn, i):
        return ("sym", fn["params"][i]["n"])

    def decide(fn, q, I, s, v, want):
        got = v[1] if T.isc(v) else I.truth(s, v)
        if got is None:
            # the returned term may itself be the specification
            if v == want:
                ctx.ok(f"{q}: returned truth value")
                return
            ctx.undecided(q, T.show(v))
            return
        if want is None:
            if known_only(s):
                ctx.bad(f"{q} agrees with its set semantics", where(fn), f"returns {got} although the inspected elements do not determine it: "
                        + facts_text(s), q + "-undetermined")
            else:
                ctx.undecided(q, "facts " + facts_text(s))
            return
        ctx.check(got == want, f"{q} agrees with its set semantics", where(fn), f"returns {got} under {facts_text(s)}", q + "-wrong")

    def has_item():
        for fn, I, outs in each("has_item"):
            cont, item = P(fn, 0), P(fn, 1)
            for s, v in outs:
                m = member(I, s, cont, item)
                if m is None and (v == T.has(cont, item)):
                    ctx.ok("has_item is membership", where(fn))
                elif m is None and v == T.neg(T.has(cont, item)):
                    ctx.bad("has_item agrees with its set semantics", where(fn), "returns the negation", "has_item-wrong")
                else:
                    decide(fn, "has_item", I, s, v, m)

    def final(I, fn, s, i):
        return I.read(s, ("sym", fn["params"][i]["n"])) if ("sym", fn["params"][i]["n"]) in s.heap else P(fn, i)

    def add_item():
        for fn, I, outs in each("add_item"):
            cont, item = P(fn, 0), P(fn, 1)
            for s, v in outs:
                additions(fn, "add_item", I, s, cont, [item])

    def additions(fn, q, I, s, cont, items):
        base, app = unpush(final(I, fn, s, 0))
        if base != cont:
            ctx.undecided(q, "final container " + T.show(base))
            return
        cur = cont
        for x in app:
            src = [i for i in items if i == x or I.truth(s, T.eq(i, x)) is True]
            ctx.check(src, f"{q} only adds the given items", where(fn), f"adds {T.show(x)}", q + "-foreign")
            m = I.truth(s, T.has(cur, x))
            if m is None:
                m = member(I, s, cur, x)
            ctx.check(m is False, f"{q} never creates a duplicate", where(fn), f"adds {T.show(x)} without knowing that it is absent ({facts_text(s)})", q + "-dup")
            cur = ("push", cur, x)
        for i in items:
            m = I.truth(s, T.has(cur, i))
            if m is None:
                m = member(I, s, cur, i)
            ctx.check(m is True, f"{q}: every item is present afterwards", where(fn), f"{T.show(i)} may be missing ({facts_text(s)})", q + "-drop")

    def add_items():
        for fn, I, outs in each("add_items"):
            cont, items = P(fn, 0), P(fn, 1)
            for s, v in outs:
                m, n = count(s.facts, items)
                if n is None:
                    # leaving early without having seen all items
                    if known_only(s):
                        ctx.bad("add_items handles every item", where(fn), "returns before all items were handled: " + facts_text(s), "add_items-early")
                    else:
                        ctx.undecided("add_items", facts_text(s))
                    continue
                additions(fn, "add_items", I, s, cont, [T.index(items, T.c(k)) for k in range(n)])

    def remove_item():
        for fn, I, outs in each("remove_item"):
            cont, item = P(fn, 0), P(fn, 1)
            for s, v in outs:
                m = member(I, s, cont, item)
                decide(fn, "remove_item", I, s, v, m)
                fin = final(I, fn, s, 0)
                if m is True:
                    ctx.check(fin != cont, "remove_item removes the item it found", where(fn), "the container is unchanged", "remove_item-kept")
                    if fin[0] == "erasekey":
                        ctx.check(fin[1] == cont and I.truth(s, T.eq(fin[2], item)) is True, "remove_item removes nothing but the item", where(fn), T.show(fin), "remove_item-other")
                    elif fin[0] == "erased" and len(fin) == 4 and fin[2][0] == "find" and fin[3][0] == "end":
                        ctx.bad("remove_item removes nothing but the item", where(fn), "erases everything behind the item too", "remove_item-other")
                    elif fin == ("vec", ()):
                        ctx.bad("remove_item removes nothing but the item", where(fn), "clears the container", "remove_item-other")
                elif m is False:
                    ctx.check(fin == cont, "remove_item leaves the container alone if the item is absent", where(fn), T.show(fin), "remove_item-absent")

    def quant(q, forall):
        for fn, I, outs in each(q):
            cont, items = P(fn, 0), P(fn, 1)
            for s, v in outs:
                m, n = count(s.facts, items)
                ms = [member(I, s, cont, T.index(items, T.c(k))) for k in range(m)]
                if forall:
                    want = False if any(x is False for x in ms) else (True if n is not None and all(x is True for x in ms) else None)
                else:
                    want = True if any(x is True for x in ms) else (False if n is not None and all(x is False for x in ms) else None)
                decide(fn, q, I, s, v, want)

    def unique():
        for fn, I, outs in each("is_unique"):
            cont = P(fn, 0)
            for s, v in outs:
                ok = ("unique", ("sorted", cont))
                tv = [a for a in s.facts if T.contains(a, ok)]
                if v == ok or (T.isc(v) and s.facts.get(ok) is v[1]):
                    ctx.ok("is_unique is the absence of equal elements", where(fn))
                elif v == T.neg(ok) or (T.isc(v) and s.facts.get(ok) is (not v[1])):
                    ctx.bad("is_unique is the absence of equal elements", where(fn), "negated", "is_unique-neg")
                elif v == ("unique", cont) or ("unique", cont) in s.facts:
                    ctx.bad("is_unique is the absence of equal elements", where(fn), "adjacent elements are compared without sorting", "is_unique-unsorted")
                else:
                    ctx.undecided("is_unique", T.show(v))

    def strip():
        fn = db.one("ros2_control::strip")
        I = H(db)
        outs = I.run(fn)
        ctx.saw_interp(I, outs)
        st = P(fn, 0)
        for k, s, v in outs:
            if k != "ret":
                ctx.bad("strip never raises", where(fn), str(v), "strip-throws")
                continue
            if v == T.c(""):
                continue
            if v[0] == "substr" and v[1] == st and len(v) == 4:
                b, n = v[2], v[3]
                ok = b[0] == "strfind" and b[3] == "find_first_not_of" and b[1] == st
                a, k0 = lin(n)
                ends = [x for x in a if x[0] in ("find_last_not_of",) or (x[0] == "strfind" and len(x) > 3 and x[3] == "find_last_not_of")]
                if ok and len(ends) == 1:
                    e = ends[0]
                    ctx.check(a == {e: 1, b: -1} and k0 == 1, "strip keeps exactly the text between the first and last visible character", where(fn),
                              f"keeps {T.show(n)} characters", "strip-len")
                    ws = set(b[2][1]) if T.isc(b[2]) else None
                    we = set(e[2][1]) if T.isc(e[2]) else None
                    if ws is not None and we is not None:
                        ctx.check(ws == we and {" ", "\t", "\n", "\r"} <= ws, "strip removes white space on both sides", where(fn), f"{sorted(ws)} / {sorted(we)}", "strip-ws")
                    continue
            if v == st:
                ctx.bad("strip removes leading and trailing white space", where(fn), "returns the text unchanged", "strip-id")
            else:
                ctx.undecided("strip", T.show(v))

    ctx.section("has_item", has_item)
    ctx.section("add_item", add_item)
    ctx.section("add_items", add_items)
    ctx.section("remove_item", remove_item)
    ctx.section("has_any_item", quant, "has_any_item", False)
    ctx.section("has_all_items", quant, "has_all_items", True)
    ctx.section("is_unique", unique)
    ctx.section("strip", strip)


def facts_text(s):
    return ", ".join(("" if b else "not ") + T.show(a) for a, b in s.facts.items() if a[0] != "val")[:300] or "no condition"
