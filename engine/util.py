"""helpers shared by the checks"""
from . import terms as T
from .db import strip_targs, walk, AnchorMissing
from .interp import Interp, State, Explosion
from .report import where


class Exact(Interp):
    exact = True


def set_this(**fields):
    """entry state in which the receiver's fields have the given values"""
    s = State()
    for k, v in fields.items():
        s.heap[("fld", ("this",), k)] = v
        s.subs.add(("this",))
    return s


def flat(v, depth=0):
    """simplify wrappers (loc/tmp/some) of returned values"""
    if v is None:
        return v
    while isinstance(v, tuple) and v and v[0] in ("tmp",):
        v = v[1]
    return v


def strip_casts(n):
    while n and n.get("k") == "cast":
        n = n["e"]
    return n


def calls_in(fn, pred):
    for n in walk(fn.get("body")):
        if n.get("k") == "call" and pred(n):
            yield n


def has_sub(t, pred):
    return any(pred(x) for x in T.subterms(t))


def const_of(v):
    return v[1] if v and v[0] == "c" else None


def num_bounds(facts, t):
    """(lo, hi) numeric bounds of a term entailed by the path facts (None: unbounded)"""
    lo = hi = None
    for a, b in facts.items():
        if a[0] == "val":
            if a[1] == t and T.is_num(b):
                return b[1], b[1]
            continue
        if a[0] not in ("<", "<="):
            continue
        x, y = a[1], a[2]
        if x == t and T.is_num(y):
            if b:       # t < y, t <= y
                hi = y[1] if hi is None else min(hi, y[1])
            else:       # t >= y, t > y
                lo = y[1] if lo is None else max(lo, y[1])
        elif y == t and T.is_num(x):
            if b:
                lo = x[1] if lo is None else max(lo, x[1])
            else:
                hi = x[1] if hi is None else min(hi, x[1])
    return lo, hi


def lin(t):
    """linear normal form: ({atom: coefficient}, constant)"""
    k = t[0]
    if T.is_num(t):
        return {}, t[1]
    if k == "+":
        a, x = lin(t[1])
        b, y = lin(t[2])
        return ladd(a, b, 1), x + y
    if k == "-" and len(t) == 3:
        a, x = lin(t[1])
        b, y = lin(t[2])
        return ladd(a, b, -1), x - y
    if k == "neg":
        a, x = lin(t[1])
        return {p: -q for p, q in a.items()}, -x
    if k == "*":
        for p, q in ((t[1], t[2]), (t[2], t[1])):
            if T.is_num(p):
                a, x = lin(q)
                return {r: p[1] * w for r, w in a.items() if p[1]}, p[1] * x
    return {t: 1}, 0


def ladd(a, b, f):
    out = dict(a)
    for p, q in b.items():
        out[p] = out.get(p, 0) + f * q
        if not out[p]:
            del out[p]
    return out


def leq(a, b):
    """linear equality of two terms"""
    return lin(T.sub(a, b)) == ({}, 0)


def count(facts, cont, cap=8):
    """(known minimum number of elements, exact or None) of a container from the path facts"""
    n = T.size(cont)
    if T.isc(n):
        return n[1], n[1]
    for k in range(cap):
        b = facts.get(("<", T.c(k), n))
        if b is False:
            return k, k
        if b is None:
            v = facts.get(("val", n))
            if v is not None and T.is_num(v):
                return v[1], v[1]
            return k, None
    return cap, None


def member(I, s, cont, item):
    """truth of item in cont from the path facts, also element-wise"""
    r = I.truth(s, T.has(cont, item))
    if r is not None:
        return r
    m, n = count(s.facts, cont)
    vals = [I.truth(s, T.eq(T.index(cont, T.c(i)), item)) for i in range(m)]
    if any(v is True for v in vals):
        return True
    for a, b in s.facts.items():
        if b is True and a[0] == "==":
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x[0] == "idx" and x[1] == cont and (y == item):
                    return True
    if n is not None and all(v is False for v in vals):
        return False
    return None


def unpush(t):
    """(base, [appended elements]) of a vector term"""
    out = []
    while t[0] in ("push", "ins"):
        out.insert(0, t[2])
        t = t[1]
    if t[0] == "vec":
        return ("vec", ()), list(t[1]) + out
    return t, out
