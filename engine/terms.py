"""Value terms.  A term is a nested tuple; ('c', v) is a constant.  Terms are kept in a light normal
form so that syntactic equality approximates semantic equality (global value numbering)."""
import re

TRUE, FALSE = ("c", True), ("c", False)
NULL = ("c", None)


def c(v):
    return ("c", v)


def isc(t):
    return isinstance(t, tuple) and t and t[0] == "c"


def enumv(q, v):
    return ("enum", q, v)


def is_num(t):
    return isc(t) and isinstance(t[1], (int, float)) and not isinstance(t[1], bool)


def neg(t):
    if isc(t):
        return c(not t[1])
    if t[0] == "not":
        return t[1]
    return ("not", t)


def const_like(t):
    """term denoting a compile-time constant distinct from every other constant of its type"""
    return isc(t) or t[0] == "enum"


def ckey(t):
    if t[0] == "enum":
        return ("e", t[2])
    return t[1]


def root(l):
    while l[0] in ("fld", "idx") or (l[0] == "deref" and l[1][0] == "addr"):
        l = l[1] if l[0] != "deref" else l[1][1]
    return l


def eq(a, b):
    if a == b and a[0] != "nan":
        return TRUE
    if const_like(a) and const_like(b):
        if isc(a) and isc(b):
            if type(a[1]) is type(b[1]) or (is_num(a) and is_num(b)):
                return c(a[1] == b[1])
            if a[1] is None or b[1] is None:
                return FALSE
            if isinstance(a[1], (bool, int)) and isinstance(b[1], (bool, int)):
                return c(int(a[1]) == int(b[1]))
            return FALSE
        if a[0] == "enum" and b[0] == "enum":
            return c(a[2] == b[2])
        e, o = (a, b) if a[0] == "enum" else (b, a)
        if is_num(o):
            return c(e[2] == o[1])
        return FALSE
    if isc(a) and a[1] is True:
        return b
    if isc(b) and b[1] is True:
        return a
    if isc(a) and a[1] is False:
        return neg(b)
    if isc(b) and b[1] is False:
        return neg(a)
    if a[0] == b[0] == "make" and a[1] == b[1] == "rclcpp::Time" and len(a) == len(b) and all(is_num(x) for x in a[2:] + b[2:]):
        return c(a[2:4] == b[2:4])      # points in time written as literals
    for x, y in ((a, b), (b, a)):
        if x == NULL and y[0] in ("addr", "new", "some", "vec", "lam", "cat", "rec"):
            return FALSE
    if a[0] == "addr" and b[0] == "addr":
        ra, rb = root(a[1]), root(b[1])
        if ra != rb and (ra[0] in ("var", "obj") or rb[0] in ("var", "obj")) and {ra[0], rb[0]} <= {"var", "sym", "obj"}:
            return FALSE        # distinct objects
    # found/end normalisation
    for x, y in ((a, b), (b, a)):
        if y[0] == "end":
            if x[0] == "find":
                return neg(has(x[1], x[2]))
            if x[0] == "findif":
                return FALSE
            if x[0] == "begin" and x[1] == y[1]:
                return eq(size(x[1]), c(0))
            if x[0] == "adjfind":
                return ("unique", x[1])
            if x[0] == "iter":
                return neg(lt(x[3], size(y[1])))
            if x[0] == "end":
                return TRUE
        if x[0] == "iter" and len(y) > 2 and y[0] in ("iter", "begin") and x[2] == y[2]:
            return eq(x[3], c(0) if y[0] == "begin" else y[3])
    for x, y in ((a, b), (b, a)):
        if y == c(0) and x[0] == "count":
            return neg(has(x[1], x[2]))
        if y == ("c", "") :
            return neg(lt(c(0), size(x))) if x[0] not in ("c", "enum") else FALSE
        if y == c(0) and x[0] == "size":
            return neg(lt(c(0), x))
        if y[0] == "npos" and x[0] == "strfind":
            return neg(("strhas", x[1], x[2]))
    if repr(a) > repr(b):
        a, b = b, a
    return ("==", a, b)


def lt(a, b):
    if a[0] in ("iter", "begin") and b[0] == "end" and len(a) > 2:
        return lt(c(0) if a[0] == "begin" else a[3], size(b[1]))
    if is_num(a) and is_num(b):
        return c(a[1] < b[1])
    if a == b:
        return FALSE
    if b == c(0) and a[0] in ("size", "count", "len"):
        return FALSE
    if b == c(1) and a[0] in ("size", "count"):
        return eq(a, c(0))
    if a == c(0) and b[0] == "count":
        return has(b[1], b[2])
    return ("<", a, b)


def le(a, b):
    if is_num(a) and is_num(b):
        return c(a[1] <= b[1])
    if b[0] in ("size", "count") and is_num(a) and isinstance(a[1], int):
        if a[1] <= 0:
            return TRUE
        return lt(c(a[1] - 1), b)
    if a[0] in ("size", "count") and is_num(b) and isinstance(b[1], int):
        return neg(lt(b, a))
    return ("<=", a, b)


def has(cn, k):
    if cn[0] == "vec":
        if not cn[1]:
            return FALSE
        und = False
        for x in cn[1]:
            e = eq(x, k)
            if e == TRUE:
                return TRUE
            if e != FALSE:
                und = True
        if not und:
            return FALSE
        return ("has", cn, k)
    if cn[0] in ("push", "ins"):
        e = eq(cn[2], k)
        if e == TRUE:
            return TRUE
        if e == FALSE:
            return has(cn[1], k)
        return ("or", e, has(cn[1], k))
    if cn[0] == "mapset":
        e = eq(cn[2], k)
        if e == TRUE:
            return TRUE
        if e == FALSE:
            return has(cn[1], k)
        return ("or", e, has(cn[1], k))
    if cn[0] == "upd" and cn[1][0] in ("mapset", "erasekey", "upd") and all(x[0][0] == "#" for x in cn[2]):
        for x in cn[2]:
            if eq(x[0][1], k) == TRUE:
                return TRUE
        if all(eq(x[0][1], k) == FALSE for x in cn[2]):
            return has(cn[1], k)
    if cn[0] == "erasekey":
        if eq(cn[2], k) == TRUE and cn[3]:
            return FALSE
        if eq(cn[2], k) == FALSE:
            return has(cn[1], k)
    return ("has", cn, k)


def size_upd(v):
    """the container below overlays of its elements' parts"""
    while v[0] == "upd" and v[1][0] in ("vec", "upd"):
        v = v[1]
    return v


def has_mapset(v):
    while v[0] in ("upd", "mapset", "erasekey"):
        if v[0] != "upd":
            return True
        v = v[1]
    return False


def size(cn):
    if cn[0] == "upd":
        ks = mapkeys(cn)
        if ks is not None and has_mapset(cn):
            return c(len(ks))
    cn = size_upd(cn)
    if cn[0] == "vec":
        return c(len(cn[1]))
    if isc(cn) and isinstance(cn[1], str):
        return c(len(cn[1]))
    if cn[0] == "push":
        s = size(cn[1])
        return add(s, c(1))
    if cn[0] in ("copyof", "sorted"):
        return size(cn[1])
    if cn[0] in ("mapset", "erasekey"):
        ks = mapkeys(cn)
        if ks is not None:
            return c(len(ks))
    if cn[0] == "cat":
        n = sum(len(x[1]) for x in cn[1:] if isc(x) and isinstance(x[1], str))
        if n:
            return ("size", cn)
    return ("size", cn)


def add(a, b):
    if is_num(a) and is_num(b):
        return c(a[1] + b[1])
    if isc(a) and isc(b) and isinstance(a[1], str) and isinstance(b[1], str):
        return c(a[1] + b[1])
    if a == c(0):
        return b
    if b == c(0):
        return a
    if repr(a) > repr(b):
        a, b = b, a
    return ("+", a, b)


def sub(a, b):
    if is_num(a) and is_num(b):
        return c(a[1] - b[1])
    if b == c(0):
        return a
    if a == b and a[0] == "size":
        return c(0)
    return ("-", a, b)


def mul(a, b):
    if is_num(a) and is_num(b):
        return c(a[1] * b[1])
    if a == c(1) or a == c(1.0):
        return b
    if b == c(1) or b == c(1.0):
        return a
    if repr(a) > repr(b):
        a, b = b, a
    return ("*", a, b)


def div(a, b):
    if is_num(a) and is_num(b) and b[1] != 0:
        if isinstance(a[1], int) and isinstance(b[1], int):
            q = abs(a[1]) // abs(b[1])
            return c(q if (a[1] >= 0) == (b[1] >= 0) else -q)
        return c(a[1] / b[1])
    return ("/", a, b)


def umin(a):
    if is_num(a):
        return c(-a[1])
    if a[0] == "neg":
        return a[1]
    return ("neg", a)


def cat(*parts):
    out = []
    for p in parts:
        ps = p[1:] if p[0] == "cat" else (p,)
        for x in ps:
            if isc(x) and isinstance(x[1], str) and out and isc(out[-1]) and isinstance(out[-1][1], str):
                out[-1] = c(out[-1][1] + x[1])
            else:
                out.append(x)
    out = [x for x in out if x != c("")]
    if not out:
        return c("")
    if len(out) == 1:
        return out[0]
    return ("cat",) + tuple(out)


def field(v, f):
    t = v[0]
    if t == "rec":
        for k, x in v[2]:
            if k == f:
                return x
        return ("fld", v, f)
    if t == "upd":
        for k, x in v[2]:
            if k == f:
                return x
        return field(v[1], f)
    if t == "alt" and f == "<alt>":
        return v[2]
    if t == "pair" and f in ("first", "second"):
        return v[1] if f == "first" else v[2]
    return ("fld", v, f)


def mapkeys(v):
    """sorted constant keys of a concrete map, None if not concrete"""
    out = set()
    gone = set()
    while True:
        if v[0] == "vec" and not v[1]:
            break
        if v[0] == "mapset" and isc(v[2]) and v[2][1] is not None:
            if v[2] not in gone:
                out.add(v[2])
            v = v[1]
        elif v[0] == "upd" and v[2] and all(isinstance(x[0], tuple) and x[0][0] == "#" and isc(x[0][1]) for x in v[2]):
            out |= {x[0][1] for x in v[2]} - gone
            v = v[1]
        elif v[0] == "erasekey" and isc(v[2]):
            if v[2] not in out:
                gone.add(v[2])
            v = v[1]
        else:
            return None
    return sorted(out, key=repr)


def index(v, i):
    if v[0] == "vec" and is_num(i) and isinstance(i[1], int) and 0 <= i[1] < len(v[1]):
        return v[1][i[1]]
    if v[0] == "mapset" and eq(v[2], i) == TRUE:
        return v[3]
    if v[0] == "mapset" and eq(v[2], i) == FALSE:
        return index(v[1], i)
    if v[0] == "upd" and all(isinstance(x[0], tuple) and x[0][0] == "#" for x in v[2]):
        for x in v[2]:
            if eq(x[0][1], i) == TRUE:
                return x[1]
        if all(eq(x[0][1], i) == FALSE for x in v[2]):
            return index(v[1], i)
    return ("idx", v, i)


def deref(p):
    if p[0] == "addr":
        return p[1]
    if p[0] == "find":
        return ("idx", ("at", p[1]), p[2]) if False else ("itv", p)
    return ("deref", p)


def addr(l):
    if l[0] == "deref":
        return l[1]
    return ("addr", l)


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            st.extend(x)


def contains(t, sub_):
    return any(x == sub_ for x in subterms(t))


def show(t, depth=0):
    """readable rendering"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    if not isinstance(t[0], str):
        return "(" + ", ".join(show(x, depth + 1) for x in t) + ")"
    if depth > 14:
        return "..."
    k = t[0]
    s = lambda x: show(x, depth + 1)
    if k == "c":
        return repr(t[1]) if not isinstance(t[1], str) else '"%s"' % t[1]
    if k == "enum":
        return t[1].split("::")[-1]
    if k == "sym":
        return t[1]
    if k == "this":
        return "this"
    if k == "fld":
        if t[1] == ("this",):
            return t[2]
        return s(t[1]) + "." + str(t[2])
    if k == "idx":
        return s(t[1]) + "[" + s(t[2]) + "]"
    if k == "deref":
        return "*" + s(t[1])
    if k == "addr":
        return "&" + s(t[1])
    if k == "var":
        return t[1]
    if k in ("==", "<", "<=", "+", "-", "*", "/", "or", "and"):
        return "(" + (" " + k + " ").join(s(x) for x in t[1:]) + ")"
    if k == "not":
        return "!" + s(t[1])
    if k == "neg":
        return "-" + s(t[1])
    if k == "call":
        return str(t[1]).split("::")[-1] + "(" + ", ".join(s(x) for x in t[2:]) + ")"
    if k == "cat":
        return " + ".join(s(x) for x in t[1:])
    return k + "(" + ", ".join(s(x) for x in t[1:]) + ")"
