"""P03 frame prefix shape: abstract strings described by emptiness and the sets of possible first/last characters."""
from engine import terms as T
from engine.util import *

ANY = None


class Shape:
    """empty: may the string be empty; first/last: None = any character, else (True, chars) = one of, (False, chars) = none of"""

    def __init__(self, empty=True, first=ANY, last=ANY, nonempty=True):
        self.empty, self.first, self.last = empty, first, last
        self.nonempty = nonempty  # may it be non-empty


class Unknown(Exception):
    pass


def ch(t):
    if T.isc(t) and isinstance(t[1], int) and 0 < t[1] < 128:
        return chr(t[1])
    if T.isc(t) and isinstance(t[1], str) and len(t[1]) == 1:
        return t[1]
    return None


def meet(a, b):
    if a is ANY:
        return b
    if b is ANY:
        return a
    (p, x), (q, y) = a, b
    if p and q:
        return (True, x & y)
    if p:
        return (True, x - y)
    if q:
        return (True, y - x)
    return (False, x | y)


def shape(t, facts):
    k = t[0]
    if k == "c" and isinstance(t[1], str):
        v = t[1]
        r = Shape(not v, (True, {v[0]}) if v else ANY, (True, {v[-1]}) if v else ANY, bool(v))
        return r
    if k in ("sym", "strreplace", "idx", "fld", "call"):
        r = Shape()
        if k == "call" and not str(t[1]).split("::")[-1] in ("get_namespace", "get_name"):
            raise Unknown(T.show(t))
    elif k == "cat":
        ps = [shape(x, facts) for x in t[1:]]
        r = Shape(all(p.empty for p in ps))
        r.nonempty = any(p.nonempty for p in ps)
        f = None
        poss = []
        for p in ps:
            if p.nonempty:
                poss.append(p.first)
            if not p.empty:
                break
        r.first = join(poss)
        poss = []
        for p in reversed(ps):
            if p.nonempty:
                poss.append(p.last)
            if not p.empty:
                break
        r.last = join(poss)
    elif k in ("erased", "substr"):
        base = shape(t[1], facts)
        a = t[2:]
        first = ANY
        if k == "erased":
            if len(a) == 2 and a[0] == T.c(0):
                cnt = a[1]
            elif len(a) == 1 and a[0][0] == "begin":
                cnt = T.c(1)
            elif len(a) == 1 and T.is_num(a[0]):
                raise Unknown("truncation")
            else:
                raise Unknown(T.show(t))
        else:
            if len(a) == 1 or (len(a) == 2 and a[1] == T.c(-1)):
                cnt = a[0]
            else:
                raise Unknown(T.show(t))
        if cnt == T.c(0):
            return base
        if cnt == ("size", t[1]):
            return Shape(True, ANY, ANY, False)
        if cnt[0] == "strfind" and cnt[3] == "find_first_not_of" and cnt[1] == t[1]:
            c0 = T.c(chr(cnt[2][1])) if T.is_num(cnt[2]) else cnt[2]
            if T.isc(c0) and isinstance(c0[1], str):
                first = (False, set(c0[1]))
        # what remains is a suffix: its last character is that of the whole, or nothing remains
        r = Shape(True, first, base.last)
    elif k == "pop":
        base = shape(t[1], facts)
        r = Shape(True, base.first, ANY)
    else:
        raise Unknown(T.show(t))
    # refine with the path facts about this very string
    ne = facts.get(("<", T.c(0), ("size", t)))
    if ne is True:
        r.empty = False
    if ne is False:
        return Shape(True, ANY, ANY, False)
    for a, b in facts.items():
        if a[0] == "==":
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                c0 = ch(y)
                if c0 is None or x[0] != "idx" or x[1] != t:
                    continue
                d = (bool(b), {c0})
                if x[2] == T.c(0):
                    r.first = meet(r.first, d)
                elif x[2][0] == "-" and x[2][1] == ("size", t):
                    r.last = meet(r.last, d)
        elif a[0] in ("starts_with", "ends_with") and a[1] == t and ch(a[2]):
            d = (bool(b), {ch(a[2])})
            if a[0] == "starts_with":
                r.first = meet(r.first, d)
            else:
                r.last = meet(r.last, d)
    return r


def join(ps):
    if not ps or any(p is ANY for p in ps):
        return ANY
    out = ps[0]
    for p in ps[1:]:
        (a, x), (b, y) = out, p
        if a and b:
            out = (True, x | y)
        elif a:
            out = (False, y - x)
        elif b:
            out = (False, x - y)
        else:
            out = (False, x & y)
    return out


def only(d, chars):
    return d is not ANY and d[0] and d[1] <= chars


def never(d, chars):
    return d is not ANY and ((d[0] and not (d[1] & chars)) or (not d[0] and chars <= d[1]))


def run(ctx):
    db = ctx.db
    ctx.rule("Abstract interpretation in a string-shape domain (possible emptiness, possible first and last characters, refined by path facts): "
             "every result is empty or ends with the separator, never starts with it; an empty prefix yields an empty result; on paths where a "
             "tilde was found it is replaced by the namespace, on the others the namespace does not appear.")
    fn = db.one("controller_interface::resolve_tf_prefix")
    W = where(fn)
    pre, ns = (("sym", p["n"]) for p in fn["params"][:2])

    def go():
        class I3(Exact):
            K = 3
        I = I3(db)
        outs = I.run(fn)
        ctx.saw_interp(I, outs)
        for k, s, v in outs:
            if k != "ret":
                ctx.bad("resolving never raises", W, str(v), "throws")
                continue
            nonempty = s.facts.get(("<", T.c(0), ("size", pre)))
            if nonempty is False:
                ctx.check(v == T.c(""), "an empty prefix stays empty", W, f"returns {T.show(v)}", "empty")
                continue
            try:
                sh = shape(v, s.facts)
            except Unknown as e:
                ctx.undecided("shape", str(e))
                continue
            if nonempty is None and v != T.c(""):
                ctx.bad("an empty prefix stays empty", W, f"the emptiness of the prefix is not tested on the path returning {T.show(v)}", "empty")
            if sh.nonempty:
                ctx.check(only(sh.last, {"/"}), "the result ends with the separator", W, f"{T.show(v)} may end otherwise", "trailing")
                ctx.check(never(sh.first, {"/"}), "the result does not start with a separator", W, f"{T.show(v)} may start with a separator", "leading")
            for t in T.subterms(v):
                if t[0] == "cat" and t[-1] == T.c("/"):
                    x = t[1] if len(t) == 3 else t[:-1]
                    try:
                        xs = shape(x, s.facts)
                    except Unknown:
                        continue
                    if xs.nonempty:
                        ctx.check(never(xs.last, {"/"}), "a trailing separator is not doubled", W, f"a separator is added to {T.show(x)}, which may already end with one", "doubled")
            find = [a for a in s.facts if a[0] == "==" and any(x[0] == "strfind" and x[1] == pre and ch(x[2]) == "~" for x in a[1:] if isinstance(x, tuple))]
            fnd = None
            for a in find:
                if T.c(-1) in a[1:]:
                    fnd = not s.facts[a]
            uses = T.contains(v, ns)
            if fnd is True:
                ctx.check(uses, "a tilde is replaced by the namespace", W, f"returns {T.show(v)}", "tilde")
                for t in T.subterms(v):
                    if t[0] == "strreplace":
                        ctx.check(t[3] == T.c(1), "exactly the tilde is replaced", W, f"replaces {T.show(t[3])} characters", "tilde-len")
                        ctx.check(t[2][0] == "strfind" or not T.isc(t[2]), "the tilde's own position is replaced", W, T.show(t[2]), "tilde-pos")
            elif fnd is False:
                ctx.check(not uses, "without a tilde the namespace is not used", W, f"returns {T.show(v)}", "no-tilde")
        # some path must know about the tilde at all
        ctx.check(any(T.contains(v, ns) for k, s, v in outs if k == "ret"), "the namespace can appear in the result", W, "no path uses it", "ns-unused")

    ctx.section("prefix", go)
