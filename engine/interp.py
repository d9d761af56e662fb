"""Path-sensitive abstract interpretation of the extracted syntax trees.

Abstract state = (store of value terms, truth facts about condition atoms, held locks, event trace).
Calls into the repository are analysed in context (inlined), calls that leave it are uninterpreted
terms; loops are unrolled to a fixed bound K with exact handling of constant trip counts; states that
agree on everything a client cares about are merged.  Nothing is executed and no solver is used:
branch feasibility is decided by syntactic entailment over the recorded facts only."""
import math
import itertools

from .db import strip_targs, walk
import time
from . import terms as T
from .terms import c, TRUE, FALSE, NULL, isc

INTS = {"char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True), "unsigned short": (16, False),
        "int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False),
        "long long": (64, True), "unsigned long long": (64, False)}
LOCKS = ("std::lock_guard<", "std::unique_lock<", "std::shared_lock<", "std::scoped_lock<")


class Explosion(Exception):
    pass


DEADLINE = [None]      # end of the time budget of the check


def in_time():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise Explosion("time budget")


class State:
    __slots__ = ("heap", "subs", "facts", "trace", "locks", "n", "exc", "tags")

    def __init__(self):
        self.heap, self.subs, self.facts = {}, set(), {}
        self.trace, self.locks, self.n, self.exc, self.tags = (), (), 0, None, {}

    def copy(self):
        s = State.__new__(State)
        s.heap, s.subs, s.facts = dict(self.heap), set(self.subs), dict(self.facts)
        s.trace, s.locks, s.n, s.exc, s.tags = self.trace, self.locks, self.n, self.exc, dict(self.tags)
        return s


class Call:
    __slots__ = ("node", "fq", "name", "cls", "recv", "recvv", "args", "argl", "line", "fn", "file", "stack")

    def __repr__(self):
        return f"Call({self.fq} {self.line})"


PURE_PREFIX = ("get_", "is_", "has_", "find", "begin", "end", "cbegin", "cend", "size", "now", "c_str", "empty",
               "count", "to_", "at", "front", "back", "data", "length", "compare", "substr", "seconds",
               "nanoseconds", "load", "owns_lock", "what", "max", "min", "lowest", "quiet_NaN", "infinity",
               "epsilon", "name", "value", "child_", "Attribute", "GetText", "FirstChild", "NextSibling",
               "Name", "str", "good", "eof", "fail", "tellg", "capacity", "id", "label", "get", "lock")


def strip_wraps(n):
    while n and n.get("k") in ("cast", "paren", "ctor", "copyctor") and (n.get("e") or len(n.get("args", [])) == 1):
        n = n.get("e") or n["args"][0]
    return n


def as_bool(v):
    if isc(v):
        if isinstance(v[1], str):
            return TRUE
        return c(bool(v[1]))
    if v[0] in ("some", "addr", "new", "lam", "obj"):
        return TRUE
    if v == ("nullopt",):
        return FALSE
    if v[0] == "enum":
        return c(v[2] != 0)
    return v


def const_strfind(s, x, name):
    """position of a constant text or character in a constant text, -1 if there is none"""
    if isinstance(x, int) and not isinstance(x, bool) and 0 < x < 256:
        x = chr(x)
    if not isinstance(x, str):
        return None
    if name == "find":
        return s.find(x)
    if name == "rfind":
        return s.rfind(x)
    idx = [i for i, ch in enumerate(s) if (ch in x) == (not name.endswith("not_of"))]
    if not idx:
        return -1
    return idx[0] if "first" in name else idx[-1]


class Interp:
    K = 2
    RECURSE = 0          # nested calls of a function to itself that are followed
    MAXDEPTH = 12
    LIMIT = 3000
    fork_minmax = True
    at_throws = False
    inline_new = False  # analyse the constructors of heap objects and dispatch virtual calls on their exact type
    objects = False     # construct, copy, move and destroy objects of the repository in place; variants know their alternative
    exact = False  # True: never merge states whose path facts differ
    opaque_throws = False  # uninterpreted calls inside try blocks may throw

    def __init__(self, db):
        self.db = db
        self.frames = itertools.count(1)
        self.parent = {}
        self.sink = None
        self.stack = []          # (fn, call line)
        self.thisv = {}
        self.undecided = []
        self.visited = set()
        self.ncalls = 0
        self.lams = {}
        self.in_try = 0

    # ---- client hooks ------------------------------------------------------------------
    def want_inline(self, fn, call):
        return True

    def on_call(self, s, call):
        return None

    def on_write(self, s, loc, val, node):
        pass

    def on_lock(self, s, mutex, mode, node):
        pass

    def on_read(self, s, loc, node):
        pass

    def state_key(self, s):
        return None

    def may_throw(self, s, call):
        return ()

    # ---- entry -------------------------------------------------------------------------
    def run(self, fn, args=None, state=None, this=("this",)):
        """outcomes [(kind, state, value)] of the function body from a symbolic entry state"""
        s = state or State()
        fr = next(self.frames)
        self.parent[fr] = None
        self.top = fr
        s.heap[("D", "this", fr)] = this
        outs = []
        starts = [s]
        for i, p in enumerate(fn["params"]):
            v = None if args is None else args.get(p["n"], args.get(i))
            loc = ("var", p["n"], p["id"], fr)
            if v is None:
                v = ("sym", p["n"])
            if p["t"].endswith("&"):
                s.heap[("D", p["id"], fr)] = ("deref", v) if v[0] != "loc" else v[1]
                if v[0] == "loc":
                    pass
                elif v[0] != "sym":
                    s.heap[("D", p["id"], fr)] = loc
                    s.heap[loc] = v
                else:
                    s.heap[("D", p["id"], fr)] = v
            else:
                s.heap[("D", p["id"], fr)] = loc
                s.heap[loc] = v
        self.stack.append((fn, fn["l"]))
        self.visited.add(fn["u"])
        sink, self.sink = self.sink, []
        try:
            for kind, st, v in self.fn_body(fn, starts[0], fr):
                outs.append(("ret", st, v))
            outs += [("throw", st, st.exc) for st in self.sink]
        finally:
            self.sink = sink
            self.stack.pop()
        return outs

    def fn_body(self, fn, s, fr):
        states = [s]
        for i in fn.get("inits") or []:
            nxt = []
            for st in states:
                st.heap[("F",)] = fr
                if self.objects:
                    r = self.init_member(fn, i, st, fr)
                    if r is not None:
                        nxt += r
                        continue
                for st2, v in self.ev(i["e"], st):
                    if i.get("f"):
                        this = st2.heap[("D", "this", fr)]
                        self.write(st2, ("fld", this, i["f"]), v, i["e"])
                    nxt.append(st2)
            states = nxt
        outs = []
        for st in states:
            st.heap[("F",)] = fr
            refret = fn.get("ret", "").endswith("&") and fn.get("kind") == "fn"
            for kind, s2, v in self.ex(fn.get("body"), st, refret):
                if kind == "next":
                    outs.append(("ret", s2, c(None)))
                elif kind == "ret":
                    outs.append(("ret", s2, v))
                else:
                    outs.append((kind, s2, v))
        return self.merge(outs)

    # ---- objects -----------------------------------------------------------------------
    def init_member(self, fn, i, s, fr):
        this = s.heap[("D", "this", fr)]
        e = i["e"] or {}
        if not i.get("f"):
            if e.get("k") in ("ctor", "copyctor"):
                return self.construct_at(e, s, this)
            return None
        loc = ("fld", this, i["f"])
        t = self.field_type(fn.get("cls"), i["f"])
        if t.endswith("&"):
            out = []
            for s2, l in self.lv(e, s):
                s2.heap[("ref", loc)] = l
                out.append(s2)
            return out
        if e.get("k") in ("ctor", "copyctor"):
            return self.construct_at(e, s, loc)
        return None

    def field_type(self, cls, f):
        r = self.db.recs.get(cls)
        for x in (r or {}).get("fields", []):
            if x["n"] == f:
                return x["t"]
        return ""

    def is_ours(self, e):
        fn = self.db.fns.get(e.get("u"))
        return fn if fn is not None and fn.get("body") is not None and self.inlinable(fn, e) else None

    def wipe(self, s, loc):
        for k in [k for k in s.heap if k == loc or (k[0] in ("fld", "idx", "nth") and self.prefix(loc, k)) or (k[0] == "ref" and self.prefix(loc, k[1]))]:
            del s.heap[k]
        s.subs.discard(loc)

    def construct_at(self, e, s, loc):
        """states after running the constructor call e on the object at loc; None: not a constructor of the repository"""
        fn = self.is_ours(e)
        if fn is None or e["t"].replace("const ", "").startswith(("std::", "rclcpp::")):
            return None
        args = [e["e"]] if e["k"] == "copyctor" else e.get("args", [])
        out = []
        for s2, ls in self.lvs(args, s):
            for s3, _ in self.inline(fn, e, s2, loc, ls, args):
                t = e["t"].replace("const ", "")
                if t != fn.get("cls"):  # inherited constructor
                    for f in (self.db.recs.get(t) or {}).get("fields", []):
                        if f.get("init"):
                            for s4, v in self.ev(f["init"], s3)[:1]:
                                self.wr(s4, ("fld", loc, f["n"]), v)
                out.append(s3)
        return out

    def e_copyctor(self, n, s):
        if not self.objects:
            return self.ev(n["e"], s)
        return [(s2, self.read(s2, l)) for s2, l in self.lv_copyctor(n, s)]

    def lv_copyctor(self, n, s):
        if not self.objects:
            return self.lv(n["e"], s)
        if n["t"].replace("const ", "").startswith("std::"):
            out = []
            for s2, l in self.lv(n["e"], s):
                v = self.read(s2, l)
                if n.get("mv"):
                    self.wr(s2, l, NULL)
                out.append((s2, ("tmp", v)))
            return out
        s.n += 1
        obj = ("obj", n["t"].replace("const ", ""), s.n)
        r = self.construct_at(n, s, obj)
        if r is None:
            return self.lv(n["e"], s)
        return [(s2, obj) for s2 in r]

    def destroy(self, decls, s, fr):
        """states after running the destructors of the given local objects"""
        cur = [s]
        for v in reversed(decls):
            d = self.dtor(v["t"].replace("const ", ""))
            if d is None:
                continue
            nxt = []
            for x in cur:
                loc = x.heap.get(("D", v["id"], fr))
                if loc is None or not self.inlinable(d, {}):
                    nxt.append(x)
                    continue
                nxt += [x2 for x2, _ in self.inline(d, {"l": d["l"]}, x, loc, [], [])]
            cur = nxt
        return cur

    def dtor(self, t):
        return next((f for f in self.db.byn.get("~" + strip_targs(t).split("::")[-1], []) if f.get("kind") == "dtor" and f.get("cls") == t), None)

    def alt(self, v):
        """(type, value) of a variant, None if unknown"""
        if v[0] == "alt":
            return v[1], v[2]
        if v[0] == "upd" and v[1][0] == "alt":
            for k, x in v[2]:
                if k == "<alt>":
                    return v[1][1], x
            return v[1][1], v[1][2]
        return None

    def ntype(self, n):
        k = (n or {}).get("k")
        if k == "copyctor" or (k == "call" and not n.get("t")):
            n = n.get("e") or n
        t = (n or {}).get("t") or {"bool": "bool", "int": "int", "float": "double"}.get(k, "")
        return t.replace("const ", "").replace("&", "").strip()

    # ---- merging -----------------------------------------------------------------------
    def merge(self, outs):
        if len(outs) < 2:
            return outs
        groups = {}
        order = []
        in_time()
        for kind, s, v in outs:
            ck = self.state_key(s)
            if ck is not None:
                key = (kind, v if kind == "ret" else None, ck)
            else:
                key = (kind, v, s.trace, s.locks, frozenset(s.heap.items()), frozenset(s.tags.items()),
                       frozenset(s.facts.items()) if self.exact else None)
            if key in groups:
                o = groups[key]
                # keep only the facts both agree on
                for a in [a for a, b in o.facts.items() if s.facts.get(a) is not b and s.facts.get(a) != b]:
                    del o.facts[a]
                if ck is not None:
                    for a, b in list(o.heap.items()):
                        if s.heap.get(a) != b:
                            o.n += 1
                            if a[0] in ("D", "F"):
                                continue
                            o.heap[a] = ("phi", o.n, a if a[0] == "var" else ("x",))
                    for a in s.heap:
                        if a not in o.heap:
                            o.heap[a] = s.heap[a] if a[0] in ("D", "F") else ("phi", o.n, ("x",))
                            o.subs |= s.subs
                    o.n = max(o.n, s.n) + 1
            else:
                groups[key] = s
                order.append((kind, s, v))
                if len(order) > self.LIMIT:
                    break
        if len(order) > self.LIMIT:
            raise Explosion(f"{self.stack[-1][0]['q']}: {len(order)} states")
        return order

    # ---- store -------------------------------------------------------------------------
    def frame(self, s):
        return s.heap[("F",)]

    def lookup(self, s, vid):
        f = s.heap[("F",)]
        while f is not None:
            l = s.heap.get(("D", vid, f))
            if l is not None:
                return l
            f = self.parent.get(f)
        return None

    def rbase(self, s, L):
        if L in s.heap:
            return s.heap[L]
        k = L[0]
        if k == "tmp":
            return L[1]
        if k == "fld":
            vb = self.rbase(s, L[1])
            if vb == L[1]:
                e = s.heap.get(("epoch", L[2]))
                return L if e is None else ("fld", L[1], L[2], e)
            return T.field(vb, L[2])
        if k in ("idx", "nth"):
            vb = self.rbase(s, L[1])
            if vb == L[1]:
                return L
            if k == "idx":
                return T.index(vb, L[2])
            if vb[0] == "vec" and isc(L[2]) and L[2][1] < len(vb[1]):
                return vb[1][L[2][1]]
            return (k, vb, L[2])
        if k in ("itv", "elem", "elemeq"):
            return L
        return L

    def read(self, s, L, node=None):
        v = self.rbase(s, L)
        if L in s.subs:
            subs = []
            n = len(L)
            for k2, v2 in s.heap.items():
                if k2[0] in ("fld", "idx", "nth") and k2[1] == L:
                    subs.append((k2[2] if k2[0] == "fld" else ("#", k2[2]), self.read(s, k2)))
                elif k2[0] in ("fld", "idx", "nth") and k2[1] != L and self.prefix(L, k2):
                    # deeper entry: find the direct child
                    x = k2
                    while x[1] != L:
                        x = x[1]
                    key = x[2] if x[0] == "fld" else ("#", x[2])
                    if key not in [a for a, _ in subs] and x not in s.heap:
                        subs.append((key, self.read(s, x)))
            if subs:
                if v[0] == "vec" and v[1] and all(k[0] == "#" and T.is_num(k[1]) and isinstance(k[1][1], int) and 0 <= k[1][1] < len(v[1]) for k, _ in subs):
                    el = list(v[1])
                    for k, x in subs:
                        el[k[1][1]] = x
                    return ("vec", tuple(el))
                subs.sort(key=repr)
                return ("upd", v, tuple(subs))
        return v

    def prefix(self, L, X):
        while isinstance(X, tuple) and X and X[0] in ("fld", "idx", "nth"):
            X = X[1]
            if X == L:
                return True
        return False

    def write(self, s, L, V, node=None):
        if L[0] == "tmp":
            return
        self.on_write(s, L, V, node)
        self.wr(s, L, V)

    def wr(self, s, L, V):
        if L[0] == "tmp":
            return
        if L in s.subs:
            for k2 in [k2 for k2 in s.heap if k2[0] in ("fld", "idx", "nth") and self.prefix(L, k2)]:
                del s.heap[k2]
        s.heap[L] = V
        X = L
        while X[0] in ("fld", "idx", "nth"):
            X = X[1]
            s.subs.add(X)

    def fresh(self, s, why):
        s.n += 1
        return ("fresh", s.n, why)

    # ---- facts -------------------------------------------------------------------------
    def truth(self, s, t):
        k = t[0]
        if k == "c":
            return bool(t[1]) if not isinstance(t[1], str) else True
        if k in ("bind", "lam"):
            return True
        if k == "not":
            r = self.truth(s, t[1])
            return None if r is None else not r
        if k == "and":
            a, b = self.truth(s, t[1]), self.truth(s, t[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        if k == "or":
            a, b = self.truth(s, t[1]), self.truth(s, t[2])
            if a or b:
                return True
            return False if a is False and b is False else None
        f = s.facts.get(t)
        if f is not None:
            return f
        if k == "==":
            for x, y in ((t[1], t[2]), (t[2], t[1])):
                if T.const_like(y):
                    v = s.facts.get(("val", x))
                    if v is not None:
                        return T.ckey(v) == T.ckey(y)
                    if T.is_num(y) and isinstance(y[1], int) and x[0] == "size":
                        for kk in range(0, 4):
                            g = s.facts.get(("<", c(kk), x))
                            if g is True and kk >= y[1]:
                                return False
                            if g is False and kk < y[1]:
                                return False
                        if s.facts.get(("<", c(y[1]), x)) is False and y[1] > 0 and s.facts.get(("<", c(y[1] - 1), x)) is True:
                            return True
                        if y[1] == 0 and s.facts.get(("<", c(0), x)) is False:
                            return True
            if s.facts.get(("<", t[1], t[2])) or s.facts.get(("<", t[2], t[1])):
                return False
        elif k == "<":
            a, b = t[1], t[2]
            if s.facts.get(("<", b, a)) or s.facts.get(("<=", b, a)):
                return False
            e = s.facts.get(T.eq(a, b)) if not isc(T.eq(a, b)) else None
            if e:
                return False
            if b[0] in ("size",) and T.is_num(a):
                for kk in range(0, 5):
                    g = s.facts.get(("<", c(kk), b))
                    if g is True and kk >= a[1]:
                        return True
                    if g is False and kk <= a[1]:
                        return False
                v = s.facts.get(("val", b))
                if v is not None:
                    return a[1] < v[1]
            for x, y in ((a, b), (b, a)):
                if T.is_num(y):
                    v = s.facts.get(("val", x))
                    if v is not None and T.is_num(v):
                        return (v[1] < y[1]) if x is a else (y[1] < v[1])
        elif k == "<=":
            a, b = t[1], t[2]
            if s.facts.get(("<", a, b)):
                return True
            if s.facts.get(("<", b, a)):
                return False
            q = T.eq(a, b)
            if not isc(q) and s.facts.get(q):
                return True
            for x, y in ((a, b), (b, a)):
                if T.is_num(y):
                    v = s.facts.get(("val", x))
                    if v is not None and T.is_num(v):
                        return (v[1] <= y[1]) if x is a else (y[1] <= v[1])
        elif k == "has":
            cn = t[1]
            if cn[0] != "vec" and s.facts.get(("<", c(0), ("size", cn))) is False:
                return False
        return self.truth_hook(s, t)

    def truth_hook(self, s, t):
        return None

    def assume(self, s, t, val):
        """states refined by t == val (may be empty)"""
        r = self.truth(s, t)
        if r is not None:
            return [s] if r == val else []
        k = t[0]
        if k == "not":
            return self.assume(s, t[1], not val)
        if (k == "and" and val) or (k == "or" and not val):
            out = []
            for s1 in self.assume(s, t[1], val):
                out += self.assume(s1, t[2], val)
            return out
        if k in ("and", "or"):
            s2 = s.copy()
            out = self.assume(s, t[1], val)
            for s1 in self.assume(s2, t[1], not val):
                out += self.assume(s1, t[2], val)
            return out
        s.facts[t] = val
        if k == "==" and val:
            for x, y in ((t[1], t[2]), (t[2], t[1])):
                if T.const_like(y):
                    s.facts[("val", x)] = y
        return [s]

    def branch(self, s, t):
        """[(state, bool)]"""
        t = as_bool(t)
        r = self.truth(s, t)
        if r is not None:
            return [(s, r)]
        s2 = s.copy()
        out = [(x, True) for x in self.assume(s, t, True)]
        out += [(x, False) for x in self.assume(s2, t, False)]
        return out

    # ---- expressions -------------------------------------------------------------------
    def evs(self, nodes, s):
        """evaluate a list left to right -> [(state, [values])]"""
        cur = [(s, [])]
        for n in nodes:
            nxt = []
            for st, vs in cur:
                for st2, v in self.ev(n, st):
                    nxt.append((st2, vs + [v]))
            cur = nxt
        return cur

    def lvs(self, nodes, s):
        cur = [(s, [])]
        for n in nodes:
            nxt = []
            for st, vs in cur:
                for st2, v in self.lv(n, st):
                    nxt.append((st2, vs + [v]))
            cur = nxt
        return cur

    def lv(self, n, s):
        if n is None:
            return [(s, ("tmp", c(None)))]
        k = n["k"]
        if k == "ref":
            if n["dk"] in ("var", "parm", "bind"):
                l = self.lookup(s, n["id"])
                if l is not None:
                    return [(s, l)]
                if n.get("q"):
                    return [(s, ("glob", n["q"]))]
                return [(s, ("var", n["n"], n["id"], 0))]
            if n["dk"] == "gvar" and "v" not in n and "sv" not in n and "fv" not in n:
                return [(s, ("glob", n.get("q", n["n"])))]
        elif k == "mem" and n.get("dk") == "field":
            out = []
            if n.get("arrow"):
                for s2, p in self.ev(n["b"], s):
                    out.append((s2, self.fldloc(T.deref(p), n["n"])))
            else:
                for s2, l in self.lv(n["b"], s):
                    out.append((s2, self.fldloc(l, n["n"])))
            if self.objects:
                out = [(s2, s2.heap.get(("ref", l), l)) for s2, l in out]
            return out
        elif k == "copyctor":
            return self.lv_copyctor(n, s)
        elif k == "ctor" and self.objects and not n["t"].replace("const ", "").startswith("std::") and self.is_ours(n) is not None:
            s.n += 1
            obj = ("obj", n["t"].replace("const ", ""), s.n)
            return [(s2, obj) for s2 in self.construct_at(n, s, obj)]
        elif k == "this":
            return [(s, ("tmp", T.addr(self.this(s))))]
        elif k == "idx":
            out = []
            for s2, l in self.lv(n["a"], s):
                for s3, i in self.ev(n["b"], s2):
                    out.append((s3, ("idx", l, i)))
            return out
        elif k == "un" and n["op"] == "*":
            return [(s2, T.deref(p)) for s2, p in self.ev(n["e"], s)]
        elif k == "un" and n["op"] in ("++", "--") and not n.get("post"):
            out = []
            for s2, _ in self.ev(n, s):
                out += self.lv(n["e"], s2)
            return out
        elif k == "asg":
            out = []
            for s2, _ in self.ev(n, s):
                out += self.lv(n["a"], s2)
            return out
        elif k == "cast":
            if n.get("ck") in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "BaseToDerived", "LValueBitCast", "Dynamic"):
                return self.lv(n["e"], s)
        elif k == "cond":
            out = []
            for s2, v in self.ev(n["c"], s):
                for s3, b in self.branch(s2, v):
                    out += self.lv(n["a"] if b else n["b"], s3)
            return out
        elif k == "call":
            out = []
            for s2, v in self.call(n, s):
                out.append((s2, v[1] if v[0] == "loc" else ("tmp", v)))
            return out
        elif k == "bin" and n["op"] == ",":
            out = []
            for s2, _ in self.ev(n["a"], s):
                out += self.lv(n["b"], s2)
            return out
        return [(s2, ("tmp", v)) for s2, v in self.ev(n, s)]

    def fldloc(self, l, name):
        if l[0] == "itv" and name == "second":
            return ("idx", l[1], l[2])
        if l[0] == "itv" and name == "first":
            return ("tmp", l[2])
        return ("fld", l, name)

    def this(self, s):
        f = s.heap[("F",)]
        while f is not None:
            l = s.heap.get(("D", "this", f))
            if l is not None:
                return l
            f = self.parent.get(f)
        return ("this",)

    def ev(self, n, s):
        if n is None:
            return [(s, c(None))]
        k = n["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            return [(s, ("unk", n.get("l", 0), k))]
        return m(n, s)

    def e_int(self, n, s):
        return [(s, c(n["v"]))]

    e_char = e_int

    def e_float(self, n, s):
        try:
            f = float(n["v"])
        except ValueError:
            f = 0.0
        return [(s, c(int(f) if f == int(f) and abs(f) < 1e15 else f))]

    def e_str(self, n, s):
        return [(s, c(n["v"]))]

    def e_bool(self, n, s):
        return [(s, c(bool(n["v"])))]

    def e_null(self, n, s):
        return [(s, NULL)]

    def e_zero(self, n, s):
        t = n.get("t", "")
        if t == "bool":
            return [(s, FALSE)]
        if t in ("int", "double", "float", "unsigned int", "long", "unsigned long", "char"):
            return [(s, c(0))]
        return [(s, self.default_value(t))]

    def e_sizeof(self, n, s):
        return [(s, ("sizeof", n.get("l", 0)))]

    def e_typeid(self, n, s):
        return [(s, ("typeid", n.get("t")))]

    def e_this(self, n, s):
        return [(s, T.addr(self.this(s)))]

    def e_ref(self, n, s):
        dk = n["dk"]
        if dk == "enum":
            return [(s, T.enumv(n["q"], n["v"]))]
        if dk == "fn":
            return [(s, ("fn", n["q"], n.get("u")))]
        if dk == "gvar":
            if "v" in n:
                return [(s, c(n["v"] if n.get("t") != "const bool" else bool(n["v"])))]
            if "sv" in n:
                return [(s, c(n["sv"]))]
            if "fv" in n:
                f = n["fv"]
                if isinstance(f, float) and f == int(f) and abs(f) < 1e15:
                    f = int(f)
                return [(s, c(f))]
            g = self.db.gvars.get(n.get("q"))
            if g is not None and g.get("init") and "const" in g["t"] and ("string" in g["t"] or "char" in g["t"] or "array" in g["t"]):
                return self.ev(g["init"], s)
            if g is not None and g.get("init") and strip_wraps(g["init"])["k"] == "lambda":
                return self.ev(strip_wraps(g["init"]), s)
        if dk == "other":
            return [(s, ("glob", n.get("q")))]
        return [(s2, self.rd(s2, l, n)) for s2, l in self.lv(n, s)]

    def rd(self, s, l, n):
        self.on_read(s, l, n)
        return self.read(s, l)

    def e_mem(self, n, s):
        if "v" in n:
            if n.get("dk") == "enum":
                return [(s, T.enumv(n["q"], n["v"]))]
            return [(s, c(n["v"]))]
        if n.get("dk") == "static":
            return [(s, ("glob", n["q"]))]
        if n.get("dk") == "fn":
            return [(s, ("fn", n["q"], n.get("u")))]
        return [(s2, self.rd(s2, l, n)) for s2, l in self.lv(n, s)]

    def e_idx(self, n, s):
        return [(s2, self.read(s2, l)) for s2, l in self.lv(n, s)]

    def e_cast(self, n, s):
        out = []
        ck = n.get("ck")
        for s2, v in self.ev(n["e"], s):
            if ck in ("FloatingToIntegral",):
                if T.is_num(v):
                    v = c(int(v[1]))
                else:
                    v = ("trunc", v)
            elif ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
                v = as_bool(v) if ck == "PointerToBoolean" else (T.neg(T.eq(v, c(0))) if not (isc(v) and isinstance(v[1], bool)) else v)
            elif ck == "IntegralToFloating":
                if isc(v) and isinstance(v[1], bool):
                    v = c(int(v[1]))
                elif not isc(v) and n.get("ft", "").replace("const ", "").strip(" &") == "bool":
                    v = ("b2d", v)
                elif n.get("t", "").replace("const ", "") == "float" and INTS.get(n.get("ft", "").replace("const ", "").strip(" &"), (0,))[0] >= 32:
                    v = self.narrow(s2, v, "float")
            elif ck == "FloatingCast":
                if n.get("t", "").replace("const ", "") == "float" and n.get("ft", "").replace("const ", "").strip(" &") != "float":
                    v = self.narrow(s2, v, "float")
            elif ck == "IntegralCast":
                v = self.icast(v, n.get("ft", ""), n.get("t", ""))
                a = INTS.get(n.get("ft", "").replace("const ", "").strip(" &"))
                b = INTS.get(n.get("t", "").replace("const ", ""))
                if a and b and b[0] < a[0]:
                    v = self.narrow(s2, v, n["t"].replace("const ", ""), not a[1])
            elif ck == "ToVoid":
                v = c(None)
            elif ck == "Dynamic":
                v = ("dyncast", n.get("t"), v)
            out.append((s2, v))
        return out

    def narrow(self, s, v, t, uns=False):
        """conversion that may change the value, unless the path bounds it"""
        if isc(v) or v[0] in ("size", "count", "enum", "b2d", "unk", "fresh") or (v[0] == "narrow" and v[1] == t):
            return v
        if t in INTS:
            from .util import num_bounds
            bits, signed = INTS[t]
            lo, hi = num_bounds(s.facts, v)
            if uns and lo is None:
                lo = 0
            a, b = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
            if lo is not None and hi is not None and lo >= a and hi <= b:
                return v
        return ("narrow", t, v)

    def icast(self, v, ft, tt):
        if isc(v) and isinstance(v[1], int) and not isinstance(v[1], bool):
            bits = {"unsigned char": 8, "unsigned short": 16, "unsigned int": 32, "unsigned long": 64}.get(tt)
            if bits and v[1] < 0:
                return c(v[1] % (1 << bits))
        if isc(v) and isinstance(v[1], bool):
            return c(int(v[1]))
        if v[0] == "enum":
            return c(v[2]) if tt in ("int", "unsigned int", "unsigned char", "long") else v
        return v

    def e_asg(self, n, s):
        out = []
        op = n["op"]
        for s2, l in self.lv(n["a"], s):
            for s3, v in self.ev(n["b"], s2):
                if op != "=":
                    v = self.arith(op[:-1], self.read(s3, l), v, n)
                self.write(s3, l, v, n)
                out.append((s3, v))
        return out

    def advance(self, p, k):
        """iterator p moved by the index term k, None if p is no tracked iterator"""
        if p[0] == "begin" and len(p) > 2:
            return ("iter", p[1], p[2], k)
        if p[0] == "iter":
            return ("iter", p[1], p[2], T.add(p[3], k))
        if p[0] == "end" and len(p) > 2 and T.isc(T.size(p[1])):
            return ("iter", p[1], p[2], T.add(T.size(p[1]), k))
        return None

    def fixpos(self, p):
        """position of an iterator into a container whose elements are all known, None if unknown"""
        if p[0] in ("begin", "iter", "end"):
            k = self.itpos(p)
            return k[1] if k is not None and T.is_num(k) else None
        if p[0] == "find" and len(p) > 3 and p[1][0] == "vec":
            es = [T.eq(x, p[2]) for x in p[1][1]]
            if all(isc(e) for e in es):
                return next((i for i, e in enumerate(es) if e == TRUE), len(es))
        return None

    def arith(self, op, a, b, n):
        if op in "+-" and a[0] == "find" and T.is_num(b) and self.fixpos(a) is not None:
            return ("iter", a[1], a[3], c(self.fixpos(a) + (b[1] if op == "+" else -b[1])))
        if op in "+-" and a[0] in ("begin", "iter", "end"):
            if b[0] in ("begin", "iter", "end") and op == "-":
                x, y = self.itpos(a), self.itpos(b)
                if x is not None and y is not None:
                    return T.sub(x, y)
            else:
                r = self.advance(a, b if op == "+" else T.umin(b))
                if r is not None:
                    return r
        if op == "+":
            if (a[0] == "cat" or b[0] == "cat" or (isc(a) and isinstance(a[1], str)) or (isc(b) and isinstance(b[1], str))):
                return T.cat(a, b)
            return T.add(a, b)
        if op == "-":
            return T.sub(a, b)
        if op == "*":
            return T.mul(a, b)
        if op == "/":
            if T.is_num(a) and T.is_num(b) and b[1] and (n.get("t") or "").replace("const ", "") in ("double", "float"):
                q = a[1] / b[1]
                return c(int(q) if q == int(q) else q)
            return T.div(a, b)
        if op in ("|", "&", "^"):
            if isc(a) and isc(b) and isinstance(a[1], (bool, int)) and isinstance(b[1], (bool, int)):
                r = {"|": a[1] | b[1], "&": a[1] & b[1], "^": a[1] ^ b[1]}[op]
                return c(r)
            if op == "|":
                if a == FALSE or a == c(0):
                    return b
                if b == FALSE or b == c(0):
                    return a
                if a in (TRUE,) and a[1] is True or b in (TRUE,) and b[1] is True:
                    return TRUE
                return ("or", a, b)
            if op == "&":
                if a == FALSE or b == FALSE:
                    return FALSE
                if a == TRUE:
                    return b
                if b == TRUE:
                    return a
                return ("and", a, b)
        if op == "%" and T.is_num(a) and T.is_num(b) and b[1]:
            return c(a[1] % b[1])
        return (op, a, b)

    def cmp(self, op, a, b):
        if op == "==":
            return T.eq(a, b)
        if op == "!=":
            return T.neg(T.eq(a, b))
        if op == "<":
            return T.lt(a, b)
        if op == ">":
            return T.lt(b, a)
        if op == "<=":
            return T.le(a, b)
        if op == ">=":
            return T.le(b, a)

    def eqv(self, a, b):
        if a == NULL and not T.const_like(b):
            return T.neg(as_bool(b))
        if b == NULL and not T.const_like(a):
            return T.neg(as_bool(a))
        return T.eq(a, b)

    def e_bin(self, n, s):
        op = n["op"]
        out = []
        if op in ("&&", "||"):
            for s2, a in self.ev(n["a"], s):
                for s3, b in self.branch(s2, a):
                    if (op == "&&") != b:
                        out.append((s3, c(op == "||")))
                    else:
                        for s4, v in self.ev(n["b"], s3):
                            v = as_bool(v)
                            r = self.truth(s4, v)
                            out.append((s4, v if r is None else c(r)))
            return out
        if op == ",":
            for s2, _ in self.ev(n["a"], s):
                out += self.ev(n["b"], s2)
            return out
        for s2, a in self.ev(n["a"], s):
            for s3, b in self.ev(n["b"], s2):
                if op == "==":
                    v = self.eqv(a, b)
                elif op == "!=":
                    v = T.neg(self.eqv(a, b))
                elif op in ("<", ">", "<=", ">="):
                    v = self.cmp(op, a, b)
                else:
                    v = self.arith(op, a, b, n)
                out.append((s3, v))
        return out

    def e_un(self, n, s):
        op = n["op"]
        out = []
        if op == "&":
            return [(s2, T.addr(l)) for s2, l in self.lv(n["e"], s)]
        if op == "*":
            return [(s2, self.rd(s2, l, n)) for s2, l in self.lv(n, s)]
        if op in ("++", "--"):
            for s2, l in self.lv(n["e"], s):
                v = self.read(s2, l)
                w = T.add(v, c(1)) if op == "++" else T.sub(v, c(1))
                self.write(s2, l, w, n)
                out.append((s2, v if n.get("post") else w))
            return out
        for s2, v in self.ev(n["e"], s):
            if op == "!":
                v = T.neg(as_bool(v))
            elif op == "-":
                v = T.umin(v)
            elif op == "~":
                v = ("~", v)
            out.append((s2, v))
        return out

    def e_cond(self, n, s):
        out = []
        for s2, v in self.ev(n["c"], s):
            for s3, b in self.branch(s2, v):
                out += self.ev(n["a"] if b else n["b"], s3)
        return out

    def e_lambda(self, n, s):
        caps = []
        for cp in n.get("caps", []):
            if cp.get("id") is not None and (not cp.get("ref") or cp.get("init")):
                if cp.get("init"):
                    r = self.ev(cp["init"], s)
                    caps.append((cp["id"], r[0][1]))
                else:
                    l = self.lookup(s, cp["id"])
                    if l is not None:
                        caps.append((cp["id"], self.read(s, l)))
        self.lams[id(n)] = n
        if self.objects:
            caps.append(("this", self.this(s)))
        return [(s, ("lam", id(n), self.frame(s), tuple(caps)))]

    def e_throw(self, n, s):
        t = n.get("t")
        s.exc = (t if t else "rethrow", n.get("l", 0), self.stack[-1][0]["q"] if self.stack else "")
        if not t:
            s.exc = (s.heap.get(("curexc",), ("?",))[0], n.get("l", 0), "rethrow")
        self.sink.append(s)
        return []

    def e_new(self, n, s):
        e = n.get("e")
        if self.objects and e and e.get("k") in ("ctor", "copyctor") and self.is_ours(e) is not None:
            s.n += 1
            obj = ("new", n["t"], s.n)
            r = self.construct_at(e, s, T.deref(obj))
            if r is not None:
                return [(s2, obj) for s2 in r]
        if self.inline_new and e and e.get("k") == "ctor":
            fn = self.db.fns.get(e.get("u"))
            if fn is not None and fn.get("body") is not None and self.inlinable(fn, e):
                out = []
                for s2, ls in self.lvs(e.get("args", []), s):
                    out += self.construct(fn, e, s2, n["t"], ls)
                return out
        s.n += 1
        return [(s, ("new", n["t"], s.n))]

    def construct(self, fn, e, s, t, ls):
        """a heap object made by a constructor of the repository"""
        s.n += 1
        obj = ("new", t, s.n)
        loc = T.deref(obj)
        d = self.default_value(t.replace("const ", ""))
        if d[0] == "rec":
            s.heap[loc] = d
        return [(s3, obj) for s3, _ in self.inline(fn, e, s, loc, ls, e.get("args", []))]

    def made_ctor(self, t, nargs):
        """the constructor a make_shared<t>(args...) call uses, if the number of arguments decides it"""
        r = self.db.recs.get(t)
        cand = []
        for m in (r or {}).get("methods", []):
            if m.get("ctor") and not m.get("special") and not m.get("del"):
                f = self.db.fns.get(m["u"])
                if f is not None and len(f["params"]) >= nargs and all(p.get("def") for p in f["params"][nargs:]):
                    cand.append(f)
        return cand[0] if len(cand) == 1 else None

    def e_delete(self, n, s):
        if self.objects:
            out = []
            for s2, v in self.ev(n["e"], s):
                d = self.dtor(v[1]) if v[0] == "new" else None
                if d is None or not self.inlinable(d, {}):
                    out.append((s2, c(None)))
                    continue
                out += [(s3, c(None)) for s3, _ in self.inline(d, {"l": n.get("l", 0)}, s2, T.deref(v), [], [])]
            return out
        return [(s2, c(None)) for s2, _ in self.ev(n["e"], s)]

    def e_stmtexpr(self, n, s):
        return [(s, ("unk", n["l"], "stmtexpr"))]

    def e_unk(self, n, s):
        return [(s, ("unk", n.get("l", 0), n.get("c", "")))]

    def e_init(self, n, s):
        t = n.get("t", "")
        out = []
        for s2, vs in self.evs(n.get("args", []), s):
            t1 = t.replace("const ", "")
            if t1.startswith("std::basic_string<") and t1.endswith(">") and len(vs) == 1:
                out.append((s2, vs[0]))
            elif t1.startswith("std::array<") and len(vs) == 1 and vs[0][0] == "vec":
                out.append((s2, vs[0]))
            elif n.get("fields"):
                fs = n["fields"]
                out.append((s2, ("rec", t, tuple((fs[i] if i < len(fs) else str(i), v) for i, v in enumerate(vs)))))
            elif "array<" in t and len(vs) == 1 and vs[0][0] == "vec":
                out.append((s2, vs[0]))
            elif not vs and t in ("double", "int", "bool", "unsigned long", "unsigned int", "float", "long"):
                out.append((s2, FALSE if t == "bool" else c(0)))
            elif len(vs) == 1 and not ("[" in t or "initializer_list" in t or "array" in t):
                out.append((s2, vs[0]))
            else:
                out.append((s2, ("vec", tuple(vs))))
        return out

    def default_value(self, t):
        t0 = t.replace("const ", "")
        if t0.startswith("std::array<") and t0.endswith(">"):
            et, _, k = t0[len("std::array<"):-1].rpartition(", ")
            if k.isdigit() and int(k) <= 64:
                return ("vec", tuple([self.default_value(et)] * int(k)))
        if t0.startswith(("std::vector<", "std::set<", "std::unordered_map<", "std::map<", "std::unordered_set<", "std::deque<", "std::list<", "std::initializer_list<")):
            return ("vec", ())
        if "basic_string<" in t0.split("(")[0] and t0.startswith("std::basic_string<"):
            return c("")
        if t0.startswith("std::optional<"):
            return ("nullopt",)
        if t0.startswith(("std::shared_ptr<", "std::unique_ptr<", "std::function<", "std::weak_ptr<")):
            return NULL
        if t0.startswith("std::variant<"):
            return ("alt", "std::monostate", c(None)) if self.objects else ("variant0",)
        r = self.db.recs.get(t0)
        if r is not None:
            fs = []
            for f in r["fields"]:
                if f.get("init"):
                    try:
                        st = State()
                        st.heap[("F",)] = 0
                        r1 = self.ev(f["init"], st)
                        fs.append((f["n"], r1[0][1]))
                    except Exception:
                        fs.append((f["n"], ("unk", f["l"], "init")))
                else:
                    dv = self.default_value(f["t"])
                    if dv[0] not in ("def",):
                        fs.append((f["n"], dv))
            return ("rec", t0, tuple(fs))
        return ("def", t0)

    def e_ctor(self, n, s):
        t = n["t"].replace("const ", "")
        args = n.get("args", [])
        if t.startswith(LOCKS):
            return self.lock_ctor(n, s, t, args)
        if t.startswith(("std::basic_string<",)):
            if not args:
                return [(s, c(""))]
            out = []
            for s2, vs in self.evs(args, s):
                v = vs[0]
                if v[0] == "vec" and not v[1]:
                    v = c("")
                if len(vs) > 1 and vs[1][0] != "def" and not (len(args) == 2 and "allocator" in (args[1] or {}).get("t", "")):
                    v = ("strctor",) + tuple(vs)
                out.append((s2, v))
            return out
        if t.startswith("std::optional<"):
            if not args:
                return [(s, ("nullopt",))]
            out = []
            for s2, vs in self.evs(args, s):
                v = vs[0]
                if v == ("glob", "std::nullopt") or v[0] == "def":
                    v = ("nullopt",)
                elif v[0] in ("some", "nullopt"):
                    pass
                else:
                    v = ("some", v)
                out.append((s2, v))
            return out
        if t.startswith("std::function<") or t.startswith("std::shared_ptr<") or t.startswith("std::unique_ptr<") or t.startswith("std::reference_wrapper<") or t.startswith("std::variant<") or t.startswith("std::atomic<") or t.startswith("std::weak_ptr<") or t.startswith("std::basic_string_view<"):
            if not args:
                return [(s, self.default_value(t))]
            if self.objects and t.startswith("std::variant<"):
                at = self.ntype(args[0])
                return [(s2, vs[0] if at.startswith("std::variant<") else ("alt", at, vs[0])) for s2, vs in self.evs(args, s)]
            if t.startswith("std::reference_wrapper<"):
                return [(s2, T.addr(l)) for s2, l in self.lv(args[0], s)]
            return [(s2, vs[0]) for s2, vs in self.evs(args, s)]
        if len(args) == 1 and any(x in t.split("<")[0] for x in ("__normal_iterator", "_iterator")):
            return [(s2, vs[0]) for s2, vs in self.evs(args, s)]
        if t.startswith(("std::vector<", "std::set<", "std::unordered_map<", "std::map<", "std::unordered_set<", "std::deque<")):
            if not args:
                return [(s, ("vec", ()))]
            out = []
            for s2, vs in self.evs(args, s):
                if vs[0][0] == "vec" and len(vs) == 1:
                    v = vs[0]
                elif len(vs) == 1:
                    v = ("vec", ()) if vs[0] == c(0) else ("sized", vs[0])
                elif vs[0][0] == "begin" and vs[0][1][0] == "vec" and vs[1][0] == "end":
                    v = self.as_set(vs[0][1]) if t.startswith("std::set<") else vs[0][1]
                elif vs[0][0] == "begin":
                    v = ("copyof", vs[0][1])
                elif T.is_num(vs[0]) and isinstance(vs[0][1], int) and 0 <= vs[0][1] <= 64:
                    v = ("vec", tuple([vs[1]] * vs[0][1]))
                else:
                    v = ("filled",) + tuple(vs[:2])
                out.append((s2, v))
            return out
        if t.startswith("std::pair<") and len(args) == 2:
            return [(s2, ("pair", vs[0], vs[1])) for s2, vs in self.evs(args, s)]
        # repository constructors
        fn = self.db.fns.get(n.get("u"))
        if fn is not None and fn.get("body") is not None and self.inlinable(fn, n):
            cl = Call()
            s.n += 1
            obj = ("obj", t, s.n)
            wr0 = self.default_value(t)
            if wr0[0] == "rec":
                s.heap[obj] = wr0
            out = []
            for s2, ls in self.lvs(args, s):
                for s3, _ in self.inline(fn, n, s2, obj, ls, args):
                    v = self.read(s3, obj)
                    out.append((s3, v if v != obj else obj))
            return out
        if not args:
            return [(s, self.default_value(t))]
        return self.opaque_ctor(n, s, t, args)

    def opaque_ctor(self, n, s, t, args):
        out = []
        for s2, vs in self.evs(args, s):
            if len(vs) == 1 and not n.get("root") and vs[0][0] not in ("vec",):
                out.append((s2, ("make", strip_targs(t), vs[0])))
            else:
                out.append((s2, ("make", strip_targs(t)) + tuple(vs)))
        return out

    def lock_ctor(self, n, s, t, args):
        out = []
        for s2, ls in self.lvs(args, s):
            ms, mode = [], "lock"
            for l, a in zip(ls, args):
                nm = (a or {}).get("n", "") if (a or {}).get("k") == "ref" else ""
                if l in (("glob", "std::try_to_lock"),) or nm == "try_to_lock":
                    mode = "try"
                elif nm == "defer_lock" or l == ("glob", "std::defer_lock"):
                    mode = "defer"
                elif nm == "adopt_lock":
                    mode = "adopt"
                elif l[0] == "tmp" and l[1][0] == "c":
                    mode = "timed"
                else:
                    ms.append(l if l[0] != "tmp" else ("deref", l[1]))
            shared = t.startswith("std::shared_lock<")
            if not ms:
                out.append((s2, ("lockobj", (), "none", shared, n.get("l", 0))))
                continue
            v = ("lockobj", tuple(ms), mode, shared, n.get("l", 0))
            for m in ms:
                self.on_lock(s2, m, mode + ("_shared" if shared else ""), n)
            if mode in ("lock", "adopt"):
                s2.locks = s2.locks + tuple((m, shared) for m in ms)
                out.append((s2, v))
            elif mode in ("try", "timed"):
                s2.n += 1
                v = v + (s2.n,)
                out.append((s2, v))
            else:
                out.append((s2, v))
        return out

    # ---- calls -------------------------------------------------------------------------
    def e_call(self, n, s):
        out = []
        for s2, v in self.call(n, s):
            if v[0] == "loc":
                v = self.read(s2, v[1])
            out.append((s2, v))
        return out

    def inlinable(self, fn, n):
        if fn.get("body") is None:
            return False
        if sum(f[0]["u"] == fn["u"] for f in self.stack) > self.RECURSE:
            return False
        return len(self.stack) < self.MAXDEPTH

    def inline(self, fn, n, s, thisloc, argl, args):
        """[(state, value|('loc', L))]"""
        self.ncalls += 1
        self.visited.add(fn["u"])
        fr = next(self.frames)
        self.parent[fr] = None
        caller = s.heap[("F",)]
        s.heap[("D", "this", fr)] = thisloc
        for i, p in enumerate(fn["params"]):
            vid = p["id"]
            if i < len(argl):
                l = argl[i]
                if (p["t"].endswith("&") and l[0] != "tmp") or (self.objects and l[0] == "obj"):
                    s.heap[("D", vid, fr)] = l
                    continue
                v = self.read(s, l)
            elif p.get("def"):
                r = self.ev(p["def"], s)
                v = r[0][1] if r else ("unk", 0, "def")
            else:
                v = ("sym", p["n"])
            loc = ("var", p["n"], vid, fr)
            s.heap[("D", vid, fr)] = loc
            self.wr(s, loc, v)
        self.stack.append((fn, n.get("l", 0)))
        nlocks = s.locks
        try:
            outs = self.fn_body(fn, s, fr)
        finally:
            self.stack.pop()
        res = []
        for kind, s2, v in outs:
            self.drop_frame(s2, fr)
            s2.heap[("F",)] = caller
            res.append((s2, v))
        return res

    def drop_frame(self, s, fr):
        dead = [k for k in s.heap if (k[0] == "D" and k[2] == fr) or self.rooted(k, fr)]
        for k in dead:
            del s.heap[k]

    def rooted(self, k, fr):
        while k[0] in ("fld", "idx", "nth"):
            k = k[1]
        return k[0] == "var" and len(k) > 3 and k[3] == fr

    def call_lambda(self, lam, argl, n, s):
        node = self.lams[lam[1]]
        fr = next(self.frames)
        self.parent[fr] = lam[2]
        caller = s.heap[("F",)]
        for vid, v in lam[3]:
            if vid == "this":
                s.heap[("D", "this", fr)] = v
                continue
            loc = ("var", "cap", vid, fr)
            s.heap[("D", vid, fr)] = loc
            self.wr(s, loc, v)
        for i, p in enumerate(node["params"]):
            l = argl[i] if i < len(argl) else ("tmp", ("sym", p["n"]))
            if p["t"].endswith("&") and l[0] != "tmp":
                s.heap[("D", p["id"], fr)] = l
            else:
                loc = ("var", p["n"], p["id"], fr)
                s.heap[("D", p["id"], fr)] = loc
                self.wr(s, loc, self.read(s, l))
            if p.get("binds"):
                self.bind(p, s.heap[("D", p["id"], fr)], s, fr)
        s.heap[("F",)] = fr
        pseudo = {"q": "lambda@%d" % node.get("l", 0), "u": "lam%d" % lam[1], "l": node.get("l", 0),
                  "file": self.stack[-1][0]["file"] if self.stack else "", "n": "lambda", "params": []}
        if len(self.stack) >= self.MAXDEPTH + 4 or any(f[0]["u"] == pseudo["u"] for f in self.stack):
            s.heap[("F",)] = caller
            return [(s, self.fresh(s, "lambda"))]
        self.stack.append((pseudo, n.get("l", 0)))
        try:
            outs = self.merge(self.ex(node["body"], s, node.get("ret", "").endswith("&")))
        finally:
            self.stack.pop()
        res = []
        for kind, s2, v in outs:
            self.drop_frame(s2, fr)
            s2.heap[("F",)] = caller
            res.append((s2, v if kind == "ret" else c(None)))
        return res

    def call(self, n, s):
        fq = strip_targs(n.get("fq", ""))
        name = n.get("n", "")
        if name.startswith("stub_log") or fq.startswith("rclcpp::stub_log") or name in ("stub_use",):
            return [(s, c(None))]
        if n.get("op"):
            return self.op_call(n, s, fq)
        if not n.get("fq"):
            # call through a function pointer / std::function object
            out = []
            for s2, f in self.ev(n.get("callee"), s):
                for s3, ls in self.lvs(n.get("args", []), s2):
                    out += self.apply(f, ls, n, s3)
            return out
        # receiver
        if n.get("recv") is not None:
            out = []
            if n.get("arrow"):
                rs = [(s2, T.deref(p)) for s2, p in self.ev(n["recv"], s)]
            else:
                rs = self.lv(n["recv"], s)
            for s2, rl in rs:
                r = self.pre_call(n, s2, fq, rl)
                if r is not None:
                    out += r
                    continue
                for s3, ls in self.lvs(n.get("args", []), s2):
                    out += self.do_call(n, s3, fq, name, rl, ls)
            return out
        r = self.pre_call(n, s, fq, None)
        if r is not None:
            return r
        out = []
        for s3, ls in self.lvs(n.get("args", []), s):
            out += self.do_call(n, s3, fq, name, None, ls)
        return out

    def pre_call(self, n, s, fq, rl):
        """models which must see unevaluated arguments"""
        return None

    def mkcall(self, n, s, fq, name, rl, ls):
        cl = Call()
        cl.node, cl.fq, cl.name, cl.cls = n, fq, name, strip_targs(n.get("cls", "") or "")
        cl.recv, cl.argl = rl, ls
        cl.args = [self.read(s, l) for l in ls]
        cl.recvv = self.read(s, rl) if rl is not None else None
        cl.line = n.get("l", 0)
        cl.file = self.stack[-1][0]["file"] if self.stack else ""
        cl.fn = self.stack[-1][0]["q"] if self.stack else ""
        cl.stack = tuple((f["q"], l) for f, l in self.stack)
        return cl

    def do_call(self, n, s, fq, name, rl, ls):
        cl = self.mkcall(n, s, fq, name, rl, ls)
        r = self.on_call(s, cl)
        if r is not None:
            return r
        exs = self.may_throw(s, cl)
        for e in exs:
            s2 = s.copy()
            s2.exc = (e, cl.line, cl.fq)
            self.sink.append(s2)
        if fq.startswith("std::") or fq.startswith("__gnu_cxx") or fq in ("fabs", "fabsf", "round", "floor", "ceil", "trunc", "lround", "llround", "rint", "nearbyint", "lrint"):
            r = self.std_call(n, s, cl)
            if r is not None:
                return r
        if fq.startswith("fmt::") and name == "format":
            f = cl.args[0] if cl.args else None
            while f and f[0] == "make":
                f = f[2] if len(f) > 2 else None
            if f and isc(f) and isinstance(f[1], str):
                parts = f[1].split("{}")
                if not any("{" in x or "}" in x for x in parts) and len(parts) == len(cl.args):
                    out = [c(parts[0])]
                    for a, x in zip(cl.args[1:], parts[1:]):
                        if isc(a) and not isinstance(a[1], str):
                            a = c(str(a[1]))
                        out += [a, c(x)]
                    return [(s, T.cat(*out))]
            return [(s, ("call", "fmt::format") + tuple(cl.args))]
        fn = self.db.fns.get(n.get("u"))
        if self.inline_new and n.get("virt") and not n.get("qual") and rl is not None and rl[0] == "deref" and rl[1][0] == "new":
            f2 = self.final_overrider(n, rl[1][1])
            if f2 is not None and self.inlinable(f2, n) and self.want_inline(f2, cl):
                return self.inline(f2, n, s, rl, ls, n.get("args", []))
        if fn is not None and self.inlinable(fn, n) and self.want_inline(fn, cl):
            if not (n.get("virt") and not n.get("qual") and self.db.overriders.get(fn["u"])) or self.inline_virtual(fn, cl):
                return self.inline(fn, n, s, rl if rl is not None else self.this(s), ls, n.get("args", []))
        return self.opaque(n, s, cl, fn)

    def final_overrider(self, n, t):
        r = self.db.recs.get(t)
        while r is not None:
            for m in r["methods"]:
                if m["n"] == n["n"] and not m.get("ctor"):
                    f = self.db.fns.get(m["u"])
                    if f is not None and len(f["params"]) == len(n.get("args", [])):
                        return f
            r = self.db.recs.get(r["bases"][0]) if len(r["bases"]) == 1 else None
        return None

    def inline_virtual(self, fn, cl):
        return False

    def is_pure(self, n, cl):
        if n.get("const"):
            return True
        if cl.name.startswith(PURE_PREFIX):
            return True
        if cl.recv is None:
            return all(k in ("v", "c&", "c*", "&&") for k in n.get("pk", []))
        return False

    def opaque(self, n, s, cl, fn=None):
        """uninterpreted call"""
        pure = self.is_pure(n, cl)
        for l, pk, a in zip(cl.argl, n.get("pk", []), cl.args):
            if pk in ("&", "*") and not (cl.name.startswith("get_") and False):
                if pk == "*":
                    if a[0] == "addr":
                        self.wr(s, a[1], self.fresh(s, cl.name))
                elif l[0] != "tmp":
                    self.wr(s, l, self.fresh(s, cl.name))
        if fn is not None and cl.recv is not None and not n.get("const"):
            for f in self.db.modset(fn):
                s.n += 1
                s.heap[("epoch", f)] = s.n
                for k2 in [k2 for k2 in s.heap if k2[0] == "fld" and k2[2] == f]:
                    s.heap[k2] = ("fresh", s.n, f)
        if pure:
            base = () if cl.recv is None else (cl.recvv,)
            return [(s, ("call", cl.fq) + base + tuple(cl.args))]
        s.n += 1
        if cl.recv is not None and fn is None and cl.recv != ("this",):
            self.wr(s, cl.recv, ("mut", s.n, cl.name, cl.recvv))
        if n.get("t") == "void":
            return [(s, c(None))]
        base = () if cl.recv is None else (cl.recvv,)
        return [(s, ("ret", cl.fq, s.n) + base + tuple(cl.args))]

    def apply(self, f, ls, n, s):
        if f[0] == "lam":
            return self.call_lambda(f, ls, n, s)
        if f[0] == "addr" and f[1][0] == "tmp":
            f = f[1][1]
        if f[0] == "fn":
            fn = self.db.fns.get(f[2])
            if fn is not None and self.inlinable(fn, n):
                return self.inline(fn, n, s, self.this(s), ls, [])
        if f[0] == "bind" and f[1][0] == "addr" and f[1][1][0] == "tmp":
            f = ("bind", f[1][1][1]) + f[2:]
        if f[0] == "bind":
            ls2 = []
            for a in f[2]:
                if a[0] == "glob" and "placeholders" in str(a[1]):
                    i = int(str(a[1])[-1]) - 1
                    ls2.append(ls[i] if i < len(ls) else ("tmp", ("unk", 0, "ph")))
                else:
                    ls2.append(("tmp", a))
            if f[1][0] == "fn":
                fn = self.db.fns.get(f[1][2])
                if fn is not None and fn.get("cls") and not fn.get("static"):
                    q = strip_targs(fn["q"])
                    recv = T.deref(self.read(s, ls2[0]))
                    cl = self.mkcall(n, s, q, q.rsplit("::", 1)[1], recv, ls2[1:])
                    r = self.on_call(s, cl)
                    if r is not None:
                        return r
                    if self.inlinable(fn, n) and self.want_inline(fn, cl):
                        return self.inline(fn, n, s, recv, ls2[1:], [])
                    return self.opaque(n, s, cl, fn)
                if fn is not None and self.inlinable(fn, n):
                    return self.inline(fn, n, s, self.this(s), ls2, [])
            return self.apply(f[1], ls2, n, s)
        cl = self.mkcall(n, s, "<indirect>", "<indirect>", None, ls)
        cl.recvv = f
        r = self.on_call(s, cl)
        if r is not None:
            return r
        for e in self.may_throw(s, cl):
            s2 = s.copy()
            s2.exc = (e, cl.line, cl.fq)
            self.sink.append(s2)
        s.n += 1
        for l in ls:
            if l[0] == "var" and False:
                self.wr(s, l, self.fresh(s, "ind"))
        return [(s, ("ret", "<indirect>", s.n, f) + tuple(cl.args))]

    # operators -------------------------------------------------------------------------
    def op_call(self, n, s, fq):
        op = n["op"]
        args = n["args"]
        out = []
        if op == "()":
            for s2, f in self.ev(args[0], s):
                fn = self.db.fns.get(n.get("u"))
                if fn is not None and f[0] != "lam" and self.inlinable(fn, n):
                    for s3, l in self.lv(args[0], s2):
                        for s4, ls in self.lvs(args[1:], s3):
                            out += self.inline(fn, n, s4, l, ls, args[1:])
                    continue
                for s3, ls in self.lvs(args[1:], s2):
                    out += self.apply(f, ls, n, s3)
            return out
        fn = self.db.fns.get(n.get("u"))
        if fn is not None and (fn.get("special") is None or (self.objects and fn.get("body") is not None)) and self.inlinable(fn, n):
            for s2, ls in self.lvs(args, s):
                cl = self.mkcall(n, s2, fq, n.get("n", ""), ls[0], ls[1:])
                r = self.on_call(s2, cl)
                if r is not None:
                    out += r
                elif self.want_inline(fn, cl):
                    if n.get("mem"):
                        out += self.inline(fn, n, s2, ls[0], ls[1:], args[1:])
                    else:
                        out += self.inline(fn, n, s2, self.this(s2), ls, args)
                else:
                    out.append((s2, ("call", fq) + tuple(self.read(s2, l) for l in ls)))
            return out
        if op == "=":
            for s2, l in self.lv(args[0], s):
                for s3, v in self.ev(args[1], s2):
                    rt = n.get("rt", "")
                    if rt.startswith("std::optional<") and v[0] not in ("some", "nullopt"):
                        if v == ("glob", "std::nullopt") or (v[0] == "make" and "nullopt" in str(v[1])):
                            v = ("nullopt",)
                        elif not (args[1] or {}).get("t", "").startswith("std::optional<"):
                            v = ("some", v)
                    if v[0] == "vec" and not v[1] and "basic_string<" in rt and rt.startswith("std::basic_string"):
                        v = c("")
                    if rt.startswith("std::reference_wrapper<") and v[0] not in ("addr",):
                        for s4, lr in self.lv(args[1], s3):
                            v = T.addr(lr)
                    if self.objects and rt.startswith("std::variant<"):
                        at = self.ntype(args[1])
                        v = ("alt",) + (self.alt(v) or ("?", v)) if at.startswith("std::variant<") else ("alt", at, v)
                    if "lockobj" == v[0]:
                        pass
                    # operator[] on an associative container creates the key
                    if l[0] == "idx" and self.is_map(args[0]):
                        base = self.read(s3, l[1])
                        self.on_write(s3, l, v, n)
                        self.wr(s3, l[1], ("mapset", base, l[2], v))
                    else:
                        self.write(s3, l, v, n)
                    out.append((s3, ("loc", l)))
            return out
        if op in ("+=", "-=", "*=", "/=", "|=", "&="):
            for s2, l in self.lv(args[0], s):
                for s3, v in self.ev(args[1], s2):
                    self.write(s3, l, self.arith_str(op[:-1], self.read(s3, l), v, n), n)
                    out.append((s3, ("loc", l)))
            return out
        if op == "[]":
            for s2, l in self.lv(args[0], s):
                for s3, i in self.ev(args[1], s2):
                    if isc(i) and self.is_map(n):
                        base = self.read(s3, l)
                        ks = T.mapkeys(base)
                        if ks is not None and i not in ks:
                            dv = self.default_value(n.get("t", "").rstrip("& "))
                            if dv[0] != "def":
                                self.wr(s3, l, ("mapset", base, i, dv))
                    out.append((s3, ("loc", ("idx", l, i))))
            return out
        if op in ("->", "*") and len(args) == 1:
            rt = n.get("rt", "")
            for s2, p in self.ev(args[0], s):
                if op == "->":
                    out.append((s2, self.arrow_value(p, rt)))
                else:
                    out.append((s2, ("loc", self.pointee(p, rt))))
            return out
        if op in ("++", "--"):
            for s2, l in self.lv(args[0], s):
                v = self.read(s2, l)
                w = self.advance(v, c(1 if op == "++" else -1))
                self.wr(s2, l, w if w is not None else ("next", v) if op == "++" else ("prev", v))
                out.append((s2, ("loc", l) if len(args) == 1 else v))
            return out
        if op == "<<" and ("stream" in n.get("rt", "") or "stream" in n.get("t", "")):
            for s2, l in self.lv(args[0], s):
                for s3, v in self.ev(args[1], s2):
                    if l[0] != "tmp":
                        self.wr(s3, l, ("put", self.read(s3, l), v))
                        out.append((s3, ("loc", l)))
                    else:
                        out.append((s3, ("put", l[1], v)))
            return out
        if op == ">>" and "stream" in n.get("rt", ""):
            for s2, l in self.lv(args[0], s):
                for s3, l2 in self.lv(args[1], s2):
                    sv = self.read(s3, l)
                    self.wr(s3, l2, ("got", sv))
                    self.wr(s3, l, ("after", sv))
                    out.append((s3, ("loc", l)))
            return out
        if op == "!" and len(args) == 1:
            return [(s2, T.neg(as_bool(v))) for s2, v in self.ev(args[0], s)]
        if op == "-" and len(args) == 1:
            return [(s2, T.umin(v)) for s2, v in self.ev(args[0], s)]
        for s2, vs in self.evs(args, s):
            if len(vs) == 2:
                a, b = vs
                if op in ("==", "!="):
                    v = self.eqv(a, b)
                    if op == "!=":
                        v = T.neg(v)
                elif op in ("<", ">", "<=", ">="):
                    v = self.cmp(op, a, b)
                else:
                    v = self.arith_str(op, a, b, n)
                out.append((s2, v))
            else:
                out.append((s2, (op,) + tuple(vs)))
        return out

    def is_map(self, n):
        return bool(n) and n.get("k") == "call" and n.get("op") == "[]" and "map<" in n.get("rt", "")

    def itpos(self, p):
        return c(0) if p[0] == "begin" else p[3] if p[0] == "iter" else T.size(p[1]) if p[0] == "end" else None

    def arith_str(self, op, a, b, n):
        if op == "+" and "basic_string" in n.get("t", "") + n.get("rt", "") and a[0] not in ("begin", "iter", "end", "find"):
            return T.cat(self.chr(a), self.chr(b))
        return self.arith(op, a, b, n)

    def chr(self, v):
        """a character constant as the string of that character"""
        if isc(v) and isinstance(v[1], int) and not isinstance(v[1], bool) and 0 < v[1] < 128:
            return c(chr(v[1]))
        return v

    def arrow_value(self, p, rt=""):
        """value of the raw pointer behind a smart pointer / iterator / optional"""
        return T.addr(self.pointee(p, rt))

    def pointee(self, p, rt=""):
        k = p[0]
        if k == "some":
            return ("tmp", p[1])
        if k == "find":
            loc = p[3] if len(p) > 3 else ("tmp", p[1])
            return ("itv", loc, p[2])
        if k == "findif":
            return ("elem", p[2], p[3])
        if k in ("begin", "iter") and len(p) > 2 and T.has_mapset(p[1]) and T.is_num(self.itpos(p)):
            ks = T.mapkeys(p[1])
            if ks is not None and 0 <= self.itpos(p)[1] < len(ks):
                return ("itv", p[2], ks[self.itpos(p)[1]])
        if k == "begin":
            return ("idx", p[2], c(0)) if len(p) > 2 else ("deref", p)
        if k == "iter":
            return ("idx", p[2], p[3])
        if k == "next" and p[1][0] == "begin":
            return ("idx", p[1][2], c(1))
        if "optional<" in rt:
            return ("tmp", ("optval", p))
        return T.deref(p)

    # ---- std models --------------------------------------------------------------------
    def std_call(self, n, s, cl):
        name, cls, args, argl, recv = cl.name, cl.cls, cl.args, cl.argl, cl.recv
        if cls == "std::numeric_limits":
            t = n.get("t", "")
            bits = {"signed char": -8, "char": -8, "short": -16, "int": -32, "long": -64, "long long": -64,
                    "unsigned char": 8, "unsigned short": 16, "unsigned int": 32, "unsigned long": 64,
                    "unsigned long long": 64}.get(t)
            if bits and name in ("min", "lowest", "max"):
                if bits > 0:
                    return [(s, c((1 << bits) - 1 if name == "max" else 0))]
                return [(s, c((1 << (-bits - 1)) - 1 if name == "max" else -(1 << (-bits - 1))))]
        if recv is not None:
            v = cl.recvv
            if cls in ("std::unique_lock", "std::shared_lock") or cls.startswith(("std::unique_lock", "std::shared_lock")):
                return self.lock_method(n, s, cl)
            if cls.startswith(("std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::timed_mutex")):
                return self.mutex_method(n, s, cl)
            if name in ("load",) or (n.get("conv") and cls.startswith("std::atomic")):
                return [(s, v)]
            if name in ("store",):
                self.write(s, recv, args[0], n)
                return [(s, c(None))]
            if name == "exchange" and args:
                self.write(s, recv, args[0], n)
                return [(s, v)]
            if n.get("conv") or name == "has_value":
                if "optional" in cls:
                    if v[0] == "some":
                        return [(s, TRUE)]
                    if v == ("nullopt",):
                        return [(s, FALSE)]
                    return [(s, ("hasval", v))]
                if "reference_wrapper" in cls:
                    return [(s, ("loc", T.deref(v)))]
                if "basic_ios" in cls or "istream" in cls:
                    return [(s, ("good", v))]
                if "basic_string" in cls or "string_view" in cls:
                    return [(s, v)]
                return [(s, as_bool(v))]
            if name in ("value",) and "optional" in cls:
                if v[0] == "some":
                    return [(s, v[1])]
                return [(s, ("optval", v))]
            if name == "value_or":
                if v[0] == "some":
                    return [(s, v[1])]
                if v == ("nullopt",):
                    return [(s, args[0])]
                out = []
                for s2, b in self.branch(s, ("hasval", v)):
                    out.append((s2, ("optval", v) if b else args[0]))
                return out
            if name == "reset" and ("optional" in cls or "ptr" in cls):
                self.write(s, recv, ("nullopt",) if "optional" in cls else (args[0] if args else NULL), n)
                return [(s, c(None))]
            if name == "get":
                if "reference_wrapper" in cls:
                    return [(s, ("loc", T.deref(v)))]
                return [(s, v)]
            if name == "lock" and "weak_ptr" in cls:
                return [(s, v)]
            if name in ("c_str", "data", "str", "string") and "stream" not in cls:
                return [(s, v)]
            if name == "emplace" and "optional" in cls:
                self.write(s, recv, ("some", args[0] if args else c(None)), n)
                return [(s, c(None))]
            return self.container_call(n, s, cl)
        # free functions
        if name in ("move", "forward", "as_const"):
            return [(s, ("loc", argl[0]) if argl[0][0] != "tmp" else args[0])]
        if name in ("ref", "cref", "addressof"):
            return [(s, T.addr(argl[0]))]
        if name in ("make_shared", "make_unique", "allocate_shared"):
            s.n += 1
            t = (n.get("ta") or ["?"])[0]
            obj = ("new", t, s.n)
            if self.inline_new:
                f = self.made_ctor(t, len(args))
                if f is not None and self.inlinable(f, n):
                    return self.construct(f, n, s, t, argl)
            if args:
                self.wr(s, ("fld", ("deref", obj), "<args>"), ("vec", tuple(args)))
            self.made(s, obj, t, args, n)
            return [(s, obj)]
        if name in ("fabs", "fabsf", "abs", "labs") and len(args) == 1:
            if T.is_num(args[0]):
                return [(s, c(abs(args[0][1])))]
            return [(s, ("abs", args[0]))]
        if name in ("floor", "ceil", "round", "trunc", "lround", "llround", "rint", "nearbyint", "lrint") and len(args) == 1 and T.is_num(args[0]) and abs(args[0][1]) < 1e15:
            x = args[0][1]
            fl = math.floor(x)
            y = {"floor": fl, "ceil": math.ceil(x), "trunc": math.trunc(x)}.get(name)
            if y is None:
                y = round(x) if "rint" in name or name == "nearbyint" else (math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1))
            return [(s, c(y if name in ("lround", "llround", "lrint") else float(y)))]
        if name in ("isnan", "isfinite", "isinf", "sqrt", "copysign", "signbit", "floor", "ceil", "round", "pow", "fmod", "sin", "cos"):
            if name == "isnan" and T.is_num(args[0]):
                return [(s, FALSE)]
            if name == "isfinite" and T.is_num(args[0]):
                return [(s, TRUE)]
            return [(s, (name,) + tuple(args))]
        if name in ("min", "max") and len(args) == 2:
            return self.minmax(s, name, args[0], args[1])
        if name in ("min", "max", "minmax") and len(args) == 1 and args[0][0] == "vec" and len(args[0][1]) == 2 and name != "minmax":
            return self.minmax(s, name, args[0][1][0], args[0][1][1])
        if name == "clamp" and len(args) >= 3:
            return self.clamp(s, args[0], args[1], args[2])
        if name == "swap" and len(args) == 2:
            a, b = args
            if self.objects:
                a, b = (("alt",) + self.alt(x) if self.alt(x) else x for x in (a, b))
                self.on_read(s, argl[0], n)
                self.on_read(s, argl[1], n)
            self.write(s, argl[0], b, n)
            self.write(s, argl[1], a, n)
            return [(s, c(None))]
        if name == "exchange" and len(args) == 2:
            self.write(s, argl[0], args[1], n)
            return [(s, args[0])]
        if name == "make_pair":
            return [(s, ("pair", args[0], args[1]))]
        if name == "to_string" and args:
            return [(s, ("tostr", args[0]) if not isc(args[0]) else c(str(args[0][1])))]
        if name in ("get", "get_if", "holds_alternative") and len(args) == 1 and self.objects:
            ta = (n.get("ta") or ["?"])[0]
            l = argl[0]
            if name == "get_if":
                l = args[0][1] if args[0][0] == "addr" else T.deref(args[0])
            if l[0] != "tmp":
                self.on_read(s, l, n)
            a = self.alt(self.read(s, l))
            if a is not None:
                hit = a[0] == ta
                if name == "holds_alternative":
                    return [(s, c(hit))]
                if name == "get_if":
                    return [(s, ("addr", ("fld", l, "<alt>")) if hit else NULL)]
                if hit:
                    return [(s, ("loc", ("fld", l, "<alt>")) if l[0] != "tmp" else a[1])]
                s.exc = ("std::bad_variant_access", cl.line, cl.fq)
                self.sink.append(s)
                return []
        if name == "get" and len(args) == 1:
            ta = (n.get("ta") or ["?"])[0]
            return [(s, ("get", ta, args[0]))] if args[0][0] != "variant0" else [(s, ("get", ta, args[0]))]
        if name == "get_if":
            return [(s, ("getif", (n.get("ta") or ["?"])[0], args[0]))]
        if name == "holds_alternative":
            return [(s, ("holds", (n.get("ta") or ["?"])[0], args[0]))]
        if name in ("dynamic_pointer_cast", "static_pointer_cast", "const_pointer_cast"):
            return [(s, ("dyncast", (n.get("ta") or ["?"])[0], args[0]) if name[0] == "d" else args[0])]
        if name == "bind":
            return [(s, ("bind", args[0], tuple(args[1:])))]
        if name in ("begin", "cbegin"):
            return [(s, ("begin", args[0], argl[0]))]
        if name in ("end", "cend"):
            return [(s, ("end", args[0], argl[0]))]
        if name in ("size", "ssize"):
            return [(s, T.size(args[0]))]
        if name in ("distance",) and len(args) == 2:
            x, y = self.fixpos(args[0]), self.fixpos(args[1])
            if x is not None and y is not None:
                return [(s, c(y - x))]
            if args[0][0] == "begin":
                if args[1][0] == "iter":
                    return [(s, args[1][3])]
                if args[1][0] == "end":
                    return [(s, T.size(args[1][1]))]
                return [(s, ("posof", args[1]))]
            return [(s, ("distance", args[0], args[1]))]
        if name in ("next", "prev"):
            r = self.advance(args[0], args[1] if len(args) > 1 else c(1)) if name == "next" else None
            if r is not None:
                return [(s, r)]
            if args[0][0] == "begin" and name == "next" and len(args) > 1:
                return [(s, ("iter", args[0][1], args[0][2], args[1]))]
            return [(s, (name, args[0]))]
        if name == "make_move_iterator" and len(args) == 1:
            return [(s, args[0])]
        if name in ("back_inserter", "inserter"):
            at = (n.get("args") or [{}])[0] or {}
            return [(s, ("inserter", argl[0]) + (("set",) if "set<" in at.get("t", "") else ()))]
        if name in ("isspace", "tolower", "toupper", "isdigit"):
            return [(s, (name, args[0]))]
        if name in ("stod", "stoi", "stoul", "stoull", "stol", "stof", "stoll"):
            return [(s, ("call", "std::" + name) + tuple(args[:1]))]
        if name == "getline":
            sv = args[0]
            self.wr(s, argl[1], ("line", sv) + tuple(args[2:3]))
            self.wr(s, argl[0], ("after", sv))
            return [(s, ("good", ("after", sv)))]
        if name == "apply" and len(args) == 2:
            return [(s, ("unk", cl.line, "apply"))]
        return self.algo_call(n, s, cl)

    def made(self, s, obj, t, args, n):
        pass

    def minmax(self, s, name, a, b):
        if T.is_num(a) and T.is_num(b):
            return [(s, c(min(a[1], b[1]) if name == "min" else max(a[1], b[1])))]
        if not self.fork_minmax:
            x, y = sorted((a, b), key=repr)
            return [(s, (name, x, y))]
        out = []
        # std::min(a,b): b<a ? b : a ; std::max(a,b): a<b ? b : a
        for s2, t in self.branch(s, T.lt(b, a) if name == "min" else T.lt(a, b)):
            out.append((s2, b if t else a))
        return out

    def clamp(self, s, v, lo, hi):
        if not self.fork_minmax:
            return [(s, ("clamp", v, lo, hi))]
        out = []
        for s2, t in self.branch(s, T.lt(v, lo)):
            if t:
                out.append((s2, lo))
            else:
                for s3, t3 in self.branch(s2, T.lt(hi, v)):
                    out.append((s3, hi if t3 else v))
        return out

    def lock_method(self, n, s, cl):
        v = cl.recvv
        nm = cl.name
        if v[0] != "lockobj":
            if nm == "owns_lock" or n.get("conv"):
                return [(s, ("owns", v))]
            return [(s, c(None))]
        ms, mode, shared = v[1], v[2], v[3]
        if nm in ("owns_lock",) or n.get("conv"):
            if mode in ("lock", "adopt"):
                return [(s, TRUE)]
            if mode in ("none", "unlocked", "defer"):
                return [(s, FALSE)]
            out = []
            for s2, b in self.branch(s, ("owns", v)):
                if b:
                    for m in ms:
                        if (m, shared) not in s2.locks:
                            s2.locks = s2.locks + ((m, shared),)
                out.append((s2, c(b)))
            return out
        if nm == "unlock":
            for m in ms:
                self.release(s, m, shared)
            self.wr(s, cl.recv, ("lockobj", ms, "unlocked", shared) + v[4:])
            return [(s, c(None))]
        if nm == "lock":
            for m in ms:
                self.on_lock(s, m, "lock" + ("_shared" if shared else ""), n)
                s.locks = s.locks + ((m, shared),)
            self.wr(s, cl.recv, ("lockobj", ms, "lock", shared) + v[4:])
            return [(s, c(None))]
        if nm == "try_lock":
            s.n += 1
            w = ("lockobj", ms, "try", shared, cl.line, s.n)
            for m in ms:
                self.on_lock(s, m, "try" + ("_shared" if shared else ""), n)
            self.wr(s, cl.recv, w)
            out = []
            for s2, b in self.branch(s, ("owns", w)):
                if b:
                    for m in ms:
                        s2.locks = s2.locks + ((m, shared),)
                out.append((s2, c(b)))
            return out
        return [(s, c(None))]

    def release(self, s, m, shared=None):
        l = list(s.locks)
        for i in range(len(l) - 1, -1, -1):
            if l[i][0] == m and (shared is None or l[i][1] == shared):
                del l[i]
                break
        s.locks = tuple(l)

    def mutex_method(self, n, s, cl):
        nm = cl.name
        if nm in ("lock", "lock_shared"):
            self.on_lock(s, cl.recv, nm, n)
            s.locks = s.locks + ((cl.recv, nm != "lock"),)
            return [(s, c(None))]
        if nm in ("unlock", "unlock_shared"):
            self.release(s, cl.recv)
            return [(s, c(None))]
        if nm in ("try_lock", "try_lock_shared"):
            self.on_lock(s, cl.recv, "try", n)
            s.n += 1
            out = []
            for s2, b in self.branch(s, ("owns", cl.recv, s.n)):
                if b:
                    s2.locks = s2.locks + ((cl.recv, nm != "try_lock"),)
                out.append((s2, c(b)))
            return out
        return [(s, cl.recvv)]

    def container_call(self, n, s, cl):
        name, cls, args, argl, recv, v = cl.name, cl.cls, cl.args, cl.argl, cl.recv, cl.recvv
        assoc = "map" in cls or "set" in cls
        if name in ("size", "length"):
            return [(s, T.size(v))]
        if name == "empty":
            return [(s, T.neg(T.lt(c(0), T.size(v))))]
        if name in ("begin", "cbegin", "rbegin"):
            return [(s, ("begin" if name != "rbegin" else "rbegin", v, recv))]
        if name in ("end", "cend", "rend"):
            return [(s, ("end", v, recv))]
        if name in ("count", "contains") and assoc:
            h = T.has(v, args[0])
            return [(s, h if name == "contains" else (c(int(h[1])) if isc(h) else ("count", v, args[0])))]
        if name == "find" and assoc:
            return [(s, ("find", v, args[0], recv))]
        if name in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of") and "string" in cls:
            if isc(v) and isc(args[0]) and isinstance(v[1], str) and (len(args) < 2 or len(args) == 2 and args[1] == (c(-1) if name[:5] in ("rfind", "find_") and "first" not in name else c(0))):
                i = const_strfind(v[1], args[0][1], name)
                if i is not None:
                    return [(s, c(i))]      # npos is the all-ones value, read as -1
            return [(s, ("strfind", v, args[0], name))]
        if name == "at":
            if self.at_throws and assoc:
                out = []
                for s2, b in self.branch(s, T.has(v, args[0])):
                    if b:
                        out.append((s2, ("loc", ("idx", recv, args[0]))))
                    else:
                        s2.exc = ("std::out_of_range", cl.line, "at")
                        self.sink.append(s2)
                return out
            if self.at_throws and not assoc and T.is_num(args[0]) and T.isc(T.size(v)) and args[0][1] >= T.size(v)[1]:
                s.exc = ("std::out_of_range", cl.line, "at")
                self.sink.append(s)
                return []
            return [(s, ("loc", ("idx", recv, args[0])))]
        if name == "front":
            return [(s, ("loc", ("idx", recv, c(0))))]
        if name == "back":
            if v[0] == "push":
                return [(s, ("loc", ("idx", recv, ("last", v))) if False else v[2])]
            sz = T.size(v)
            return [(s, ("loc", ("idx", recv, T.sub(sz, c(1)))))]
        if name in ("push_back", "emplace_back", "push", "emplace", "insert", "push_front", "emplace_front", "insert_or_assign", "try_emplace", "append"):
            return self.insert_call(n, s, cl, assoc)
        if name == "clear":
            self.write(s, recv, ("vec", ()) if "string" not in cls else c(""), n)
            return [(s, c(None))]
        if name == "erase":
            if assoc and len(args) == 1 and args[0][0] not in ("begin", "find", "findif", "iter"):
                self.write(s, recv, ("erasekey", v, args[0], True), n)
            elif not assoc and len(args) == 1 and v[0] == "vec" and (args[0][0] == "begin" or args[0][0] == "iter" and T.is_num(args[0][3]) and 0 <= args[0][3][1] < len(v[1])) and len(args[0]) > 2 and args[0][2] == recv and v[1]:
                k = args[0][3][1] if args[0][0] == "iter" else 0
                self.write(s, recv, ("vec", v[1][:k] + v[1][k + 1:]), n)
                return [(s, ("iter", self.read(s, recv), recv, c(k)))]
            elif len(args) == 1 and args[0][0] == "find" and v[0] == "vec" and not assoc and all(isc(T.eq(x, args[0][2])) for x in v[1]):
                k = [i for i, x in enumerate(v[1]) if T.eq(x, args[0][2]) == TRUE]
                self.write(s, recv, ("vec", v[1][:k[0]] + v[1][k[0] + 1:]) if k else ("erased", v, args[0]), n)
            elif len(args) == 1 and args[0][0] == "find":
                self.write(s, recv, ("erasekey", v, args[0][2], assoc), n)
            elif len(args) == 2 and v[0] == "vec" and not assoc and None not in (self.fixpos(args[0]), self.fixpos(args[1])) and self.fixpos(args[0]) <= self.fixpos(args[1]) <= len(v[1]):
                i, j = self.fixpos(args[0]), self.fixpos(args[1])
                self.write(s, recv, ("vec", v[1][:i] + v[1][j:]), n)
                return [(s, ("iter", self.read(s, recv), recv, c(i)))]
            elif len(args) == 2 and args[0] == ("begin", v, recv) and args[1] == ("end", v, recv):
                self.write(s, recv, ("vec", ()), n)
                return [(s, ("end", ("vec", ()), recv))]
            else:
                self.write(s, recv, ("erased", v) + tuple(args), n)
            return [(s, ("ret", "erase", cl.line))]
        if name in ("reserve", "shrink_to_fit"):
            return [(s, c(None))]
        if name == "fill" and v[0] == "vec" and len(args) == 1:
            self.write(s, recv, ("vec", tuple([args[0]] * len(v[1]))), n)
            return [(s, c(None))]
        if name in ("resize", "assign"):
            if name == "resize" and v == ("vec", ()) and T.is_num(args[0]) and 0 <= args[0][1] <= 16 and len(args) > 1:
                nv = ("vec", tuple([args[1]] * args[0][1]))
            elif name == "resize" and T.is_num(args[0]) and v[0] == "vec" and len(v[1]) == args[0][1]:
                nv = v
            elif name == "resize":
                nv = ("resized", v, args[0]) + tuple(args[1:2])
            elif len(args) == 2 and args[0][0] == "begin" and args[1][0] == "end" and args[0][1] == args[1][1] and args[0][1][0] == "vec":
                nv = args[0][1]
            elif len(args) == 2 and T.is_num(args[0]) and 0 <= args[0][1] <= 16:
                nv = ("vec", tuple([args[1]] * args[0][1]))
            else:
                nv = ("assigned",) + tuple(args)
            self.write(s, recv, nv, n)
            return [(s, c(None))]
        if name == "swap":
            self.write(s, recv, args[0], n)
            self.write(s, argl[0], v, n)
            return [(s, c(None))]
        if name == "replace" and "string" in cls and len(args) == 3:
            self.write(s, recv, ("strreplace", v) + tuple(args), n)
            return [(s, ("loc", recv))]
        if name in ("starts_with", "ends_with"):
            return [(s, (name, v, args[0]))]
        if name in ("pop_back", "pop_front"):
            if v[0] == "vec" and v[1]:
                self.write(s, recv, ("vec", v[1][:-1] if name == "pop_back" else v[1][1:]), n)
                return [(s, c(None))]
            self.write(s, recv, ("pop", v), n)
            return [(s, c(None))]
        if name in ("substr",):
            if isc(v) and isinstance(v[1], str) and all(T.is_num(a) for a in args):
                a0 = args[0][1]
                return [(s, c(v[1][a0:a0 + args[1][1]] if len(args) > 1 and args[1][1] >= 0 else v[1][a0:]))]
            return [(s, ("substr", v) + tuple(args))]
        if name == "compare":
            return [(s, ("cmpstr", v) + tuple(args))]
        if name in ("fetch_add", "fetch_sub"):
            self.write(s, recv, T.add(v, args[0]) if name == "fetch_add" else T.sub(v, args[0]), n)
            return [(s, v)]
        if name == "imbue":
            self.wr(s, recv, ("imbued", v, args[0]))
            return [(s, c(None))]
        return None

    def insert_call(self, n, s, cl, assoc):
        name, args, recv, v, cls = cl.name, cl.args, cl.recv, cl.recvv, cl.cls
        if "map" in cl.cls:
            if len(args) == 1 and args[0][0] == "pair":
                k, x = args[0][1], args[0][2]
            elif len(args) == 1 and args[0][0] == "vec" and len(args[0][1]) == 2:
                k, x = args[0][1]
            elif len(args) == 1 and args[0][0] == "rec":
                k, x = [b for a, b in args[0][2]][-2:]
            elif len(args) == 2 and args[0][0] != "begin":
                k, x = args
            else:
                self.write(s, recv, ("insall", v) + tuple(args), n)
                return [(s, ("ret", "insert", cl.line))]
            h = T.has(v, k)
            if h != TRUE:
                self.write(s, recv, ("mapset", v, k, x), n)
            return [(s, ("pair", ("itv_it", k), T.neg(h)))]
        if "set" in cl.cls and "offset" not in cl.cls:
            if len(args) == 1 and v[0] == "vec" and cls.startswith("std::set") and all(isc(x) and isinstance(x[1], str) for x in v[1] + (args[0],)):
                known = args[0] in v[1]
                self.write(s, recv, self.as_set(("vec", v[1] + (args[0],))), n)
                return [(s, ("pair", ("find", v, args[0], recv), c(not known)))]
            if len(args) == 1:
                self.write(s, recv, ("ins", v, args[0]), n)
                return [(s, ("pair", ("find", v, args[0], recv), T.neg(T.has(v, args[0]))))]
            self.write(s, recv, ("insall", v) + tuple(args), n)
            return [(s, c(None))]
        if name in ("append",):
            self.write(s, recv, T.cat(v, self.chr(args[0])), n)
            return [(s, ("loc", recv))]
        if name in ("push_back", "emplace_back", "push", "emplace"):
            x = args[0] if len(args) == 1 else (("pair",) + tuple(args) if len(args) == 2 else ("make", "elem") + tuple(args))
            if "string" in cl.cls:
                self.write(s, recv, T.cat(v, self.chr(x)), n)
            elif v[0] == "vec" and len(v[1]) < 64:
                self.write(s, recv, ("vec", v[1] + (x,)), n)
            else:
                self.write(s, recv, ("push", v, x), n)
            nv = self.read(s, recv)
            if nv[0] == "vec":
                return [(s, ("loc", ("idx", recv, c(len(nv[1]) - 1))))]
            return [(s, ("loc", ("idx", recv, ("last", nv))))]
        if name == "insert" and len(args) == 3 and args[1][0] == "begin":
            if v == ("vec", ()):
                self.write(s, recv, args[1][1], n)
            elif args[1][1] == ("vec", ()):
                pass
            elif v[0] == "vec" and args[1][1][0] == "vec" and args[0][0] in ("end", "begin") and "set" not in cl.cls.split("<")[0] and "map" not in cl.cls.split("<")[0]:
                self.write(s, recv, ("vec", v[1] + args[1][1][1] if args[0][0] == "end" else args[1][1][1] + v[1]), n)
            else:
                self.write(s, recv, ("concat", v, args[1][1]), n)
            return [(s, c(None))]
        if name in ("insert", "emplace") and len(args) == 2 and not assoc and v[0] == "vec":
            k = self.fixpos(args[0])
            if k is not None and 0 <= k <= len(v[1]) and args[0][0] != "const":
                self.write(s, recv, ("vec", v[1][:k] + (args[1],) + v[1][k:]), n)
                return [(s, ("iter", self.read(s, recv), recv, c(k)))]
        if name == "insert" and len(args) == 2:
            self.write(s, recv, ("push", v, args[1]), n)
            return [(s, c(None))]
        self.write(s, recv, ("insall", v) + tuple(args), n)
        return [(s, c(None))]

    # ---- algorithms --------------------------------------------------------------------
    def algo_call(self, n, s, cl):
        name, args, argl = cl.name, cl.args, cl.argl
        if not args:
            return None
        if name == "find" and len(args) == 3 and args[0][0] == "begin":
            return [(s, ("find", args[0][1], args[2], args[0][2]))]
        if name == "count" and len(args) == 3 and args[0][0] == "begin":
            return [(s, ("count", args[0][1], args[2]))]
        if name == "adjacent_find" and len(args) == 2 and args[0][0] == "begin" and args[1][0] == "end" and args[0][1][0] == "vec":
            val = args[0][1][1]
            es = [T.eq(a, b) for a, b in zip(val, val[1:])]
            if all(isc(e) for e in es):
                k = [i for i, e in enumerate(es) if e == TRUE]
                return [(s, ("iter", args[0][1], args[0][2], c(k[0])) if k else args[1])]
        if name == "adjacent_find" and len(args) == 2 and args[0][0] == "begin":
            return [(s, ("adjfind", args[0][1]))]
        if name in ("sort", "stable_sort", "reverse") and len(args) == 2 and args[0][0] == "begin" and args[1][0] == "end" and args[0][1][0] == "vec":
            val = args[0][1][1]
            if name == "reverse" or all(isc(x) and isinstance(x[1], str) for x in val):
                self.write(s, args[0][2], ("vec", val[::-1] if name == "reverse" else tuple(sorted(val, key=lambda x: x[1]))), n)
                return [(s, c(None))]
        if name in ("sort", "stable_sort", "reverse") and args[0][0] == "begin":
            self.write(s, args[0][2], ("sorted" if name != "reverse" else "reversed", args[0][1]), n)
            return [(s, c(None))]
        r = self.concrete_algo(n, s, cl)
        if r is not None:
            return r
        if name in ("any_of", "all_of", "none_of", "for_each", "count_if", "find_if", "find_if_not", "transform", "copy_if", "remove_if", "is_permutation", "equal", "accumulate", "copy") and args[0][0] == "begin":
            val, loc = args[0][1], args[0][2]
            if name in ("any_of", "all_of", "none_of", "for_each"):
                return self.quant(n, s, name, val, loc, args[2])
            if name in ("find_if", "find_if_not"):
                return self.find_if(n, s, val, loc, args[2], name == "find_if")
            if name == "transform" and len(args) == 4 and args[2][0] == "begin" and val[0] != "vec":
                out = []
                for s2, w in self.apply(args[3], [("idx", loc, ("any",))], n, s):
                    if w[0] == "loc":
                        w = self.read(s2, w[1])
                    self.write(s2, args[2][2], ("map", val, w), n)
                    out.append((s2, c(None)))
                return out
            if name == "transform" and len(args) == 4:
                return self.transform(n, s, val, loc, args[2], args[3])
            if name == "copy" and args[2][0] == "inserter":
                tgt = args[2][1]
                old = self.read(s, tgt)
                self.write(s, tgt, val if old == ("vec", ()) else ("concat", old, val), n)
                return [(s, c(None))]
            if name == "copy_if" and args[2][0] == "inserter":
                tgt = args[2][1]
                self.write(s, tgt, ("filtered", val, ("at", cl.line)), n)
                return [(s, c(None))]
            if name == "accumulate" and len(args) == 3 and val[0] == "vec":
                acc = args[2]
                for x in val[1]:
                    acc = T.add(acc, x)
                return [(s, acc)]
        if name in ("fill",) and args[0][0] == "begin":
            v = args[0][1]
            if v[0] == "vec":
                self.write(s, args[0][2], ("vec", tuple([args[2]] * len(v[1]))), n)
            else:
                self.write(s, args[0][2], ("filledwith", T.size(v), args[2]), n)
            return [(s, c(None))]
        return None

    def as_set(self, v):
        """the elements of a concrete vector as an ordered set"""
        if v[0] == "vec" and all(isc(x) and isinstance(x[1], str) for x in v[1]):
            return ("vec", tuple(sorted(set(v[1]), key=lambda x: x[1])))
        return v

    def append_to(self, s, ins, items, n):
        tgt = ins[1]
        old = self.read(s, tgt)
        v = ("vec", old[1] + tuple(items))
        self.write(s, tgt, self.as_set(v) if len(ins) > 2 else v, n)

    def concrete_algo(self, n, s, cl):
        """standard algorithms over containers whose elements are all known"""
        name, args = cl.name, cl.args
        if name == "copy_n" and len(args) == 3 and args[0][0] in ("begin", "iter") and len(args[0]) > 2 and T.is_num(args[1]) and T.is_num(self.itpos(args[0])):
            name, args = "copy", [args[0], ("iter", args[0][1], args[0][2], c(self.itpos(args[0])[1] + args[1][1])), args[2]]
        if name == "fill_n" and len(args) == 3 and args[0][0] in ("begin", "iter") and len(args[0]) > 2 and T.is_num(args[1]) and T.is_num(self.itpos(args[0])) and args[0][1][0] == "vec":
            p0 = self.itpos(args[0])[1]
            for k in range(args[1][1]):
                self.write(s, ("idx", args[0][2], c(p0 + k)), args[2], n)
            return [(s, ("iter", args[0][1], args[0][2], c(p0 + args[1][1])))]
        if name in ("any_of", "all_of", "none_of", "count_if", "find_if", "find_if_not", "for_each") and len(args) == 3 and len(args[0]) > 2 and args[0][0] == "begin" and args[1][0] == "end" and T.has_mapset(args[0][1]):
            return self.map_algo(n, s, name, args)
        if len(args) < 3 or args[0][0] not in ("begin", "iter") or args[0][1][0] != "vec" or len(args[0]) < 3:
            return None
        if args[1][0] not in ("end", "iter", "begin"):
            return None
        val, loc = args[0][1], args[0][2]
        lo, hi = self.itpos(args[0]), self.itpos(args[1])
        if not (T.is_num(lo) and T.is_num(hi)):
            return None
        rng = range(lo[1], min(hi[1], len(val[1])))
        if name in ("find_if", "find_if_not"):
            out, cur = [], [s]
            for k in rng:
                nxt = []
                for st in cur:
                    for s2, v in self.apply(args[2], [("idx", loc, c(k))], n, st):
                        if v[0] == "loc":
                            v = self.read(s2, v[1])
                        for s3, b in self.branch(s2, as_bool(v)):
                            if b == (name == "find_if"):
                                out.append((s3, ("iter", val, loc, c(k))))
                            else:
                                nxt.append(s3)
                cur = nxt
            return out + [(st, args[1]) for st in cur]
        if name in ("copy_if", "remove_copy_if") and args[2][0] == "inserter" and self.read(s, args[2][1])[0] == "vec":
            cur = [(s, ())]
            for k in rng:
                nxt = []
                for st, acc in cur:
                    for s2, v in self.apply(args[3], [("idx", loc, c(k))], n, st):
                        if v[0] == "loc":
                            v = self.read(s2, v[1])
                        for s3, b in self.branch(s2, as_bool(v)):
                            nxt.append((s3, acc + (val[1][k],) if b == (name == "copy_if") else acc))
                cur = nxt
            for st, acc in cur:
                self.append_to(st, args[2], acc, n)
            return [(st, args[2]) for st, _ in cur]
        if name in ("copy", "move") and args[2][0] in ("begin", "iter") and len(args[2]) > 2:
            to = self.itpos(args[2])
            if T.is_num(to):
                items = [val[1][k] for k in rng]
                for j, x in enumerate(items):
                    self.write(s, ("idx", args[2][2], c(to[1] + j)), x, n)
                return [(s, ("iter", args[2][1], args[2][2], c(to[1] + len(items))))]
        if name == "copy" and args[2][0] == "inserter" and self.read(s, args[2][1])[0] == "vec":
            self.append_to(s, args[2], [val[1][k] for k in rng], n)
            return [(s, args[2])]
        if name == "transform" and len(args) == 4 and args[2][0] == "inserter" and self.read(s, args[2][1])[0] == "vec":
            cur = [(s, ())]
            for k in rng:
                nxt = []
                for st, acc in cur:
                    for s2, v in self.apply(args[3], [("idx", loc, c(k))], n, st):
                        if v[0] == "loc":
                            v = self.read(s2, v[1])
                        nxt.append((s2, acc + (v,)))
                cur = nxt
            for st, acc in cur:
                self.append_to(st, args[2], acc, n)
            return [(st, args[2]) for st, _ in cur]
        if name == "equal" and args[2][0] in ("begin", "iter") and args[2][1][0] == "vec" and len(args) == 3:
            o = self.itpos(args[2])
            if not T.is_num(o):
                return None
            es = [T.eq(val[1][k], args[2][1][1][o[1] + i]) for i, k in enumerate(rng) if o[1] + i < len(args[2][1][1])]
            if len(es) == len(rng) and all(isc(e) for e in es):
                return [(s, c(all(e[1] for e in es)))]
            return None
        if name in ("count_if", "any_of", "all_of", "none_of"):
            cur = [(s, 0)]
            for k in rng:
                nxt = []
                for st, cnt in cur:
                    for s2, v in self.apply(args[2], [("idx", loc, c(k))], n, st):
                        if v[0] == "loc":
                            v = self.read(s2, v[1])
                        nxt += [(s3, cnt + bool(b)) for s3, b in self.branch(s2, as_bool(v))]
                cur = nxt
            m = len(rng)
            f = {"count_if": c, "any_of": lambda x: c(x > 0), "all_of": lambda x: c(x == m), "none_of": lambda x: c(x == 0)}[name]
            return [(st, f(x)) for st, x in cur]
        return None

    def map_algo(self, n, s, name, args):
        """the element-wise algorithms over a map whose keys are all known"""
        val, loc = args[0][1], args[0][2]
        keys = T.mapkeys(val)
        if keys is None:
            return None
        cur, out = [(s, 0)], []
        for i, k in enumerate(keys):
            nxt = []
            for st, cnt in cur:
                for s2, v in self.apply(args[2], [("itv", loc, k)], n, st):
                    if name == "for_each":
                        nxt.append((s2, 0))
                        continue
                    if v[0] == "loc":
                        v = self.read(s2, v[1])
                    for s3, b in self.branch(s2, as_bool(v)):
                        if name in ("find_if", "find_if_not") and b == (name == "find_if"):
                            out.append((s3, ("iter", val, loc, c(i)) if i else args[0]))
                        else:
                            nxt.append((s3, cnt + bool(b)))
            cur = nxt
        m = len(keys)
        f = {"count_if": c, "any_of": lambda x: c(x > 0), "all_of": lambda x: c(x == m), "none_of": lambda x: c(x == 0), "for_each": lambda x: c(None)}.get(name, lambda x: args[1])
        return out + [(st, f(x)) for st, x in cur]

    def elemloc(self, loc, val, k):
        return ("idx", loc, c(k))

    def quant(self, n, s, name, val, loc, pred):
        out = []
        cur = [s]
        for k in range(self.K + 1):
            nxt = []
            for st in cur:
                for s2, more in self.branch(st, T.lt(c(k), T.size(val))):
                    if not more:
                        out.append((s2, c(name in ("all_of", "none_of")) if name != "for_each" else c(None)))
                        continue
                    if k >= self.K and val[0] != "vec":
                        continue
                    for s3, v in self.apply(pred, [self.elemloc(loc, val, k)], n, s2):
                        if name == "for_each":
                            nxt.append(s3)
                            continue
                        if v[0] == "loc":
                            v = self.read(s3, v[1])
                        for s4, b in self.branch(s3, v):
                            if name == "any_of" and b:
                                out.append((s4, TRUE))
                            elif name == "all_of" and not b:
                                out.append((s4, FALSE))
                            elif name == "none_of" and b:
                                out.append((s4, FALSE))
                            else:
                                nxt.append(s4)
            cur = [x for _, x, _ in self.merge([("next", x, None) for x in nxt])]
            if not cur:
                break
            if val[0] == "vec" and k == self.K and len(val[1]) > self.K:
                self.K, sv = len(val[1]), self.K
                try:
                    pass
                finally:
                    self.K = sv
        return out

    def find_if(self, n, s, val, loc, pred, pos=True):
        out = []
        key = (pred[1] if pred[0] == "lam" else repr(pred)[:60], pred[3] if pred[0] == "lam" else ())
        node = self.lams.get(pred[1]) if pred[0] == "lam" else None
        free = ()
        if node is not None:
            vals = []
            for cp in node.get("caps", []):
                if cp.get("ref") and cp.get("id") is not None:
                    l = self.lookup(s, cp["id"])
                    if l is not None:
                        vals.append(self.read(s, l))
            free = tuple(vals)
            key = (node.get("l"),) + key[1:]
        atom = ("exists", val, key, free)
        for s2, b in self.branch(s, atom):
            if not b:
                out.append((s2, ("end", val, loc)))
                continue
            el = ("elem", loc, (key, free))
            for s3, v in self.apply(pred, [el], n, s2):
                if v[0] == "loc":
                    v = self.read(s3, v[1])
                for s4 in self.assume(s3, as_bool(v), pos):
                    out.append((s4, ("findif", val, loc, (key, free))))
        return out

    def transform(self, n, s, val, loc, dst, f):
        out = []
        if dst[0] == "inserter":
            tgt = dst[1]
            cur = [(s, [])]
            if val[0] == "vec":
                for k in range(len(val[1])):
                    nxt = []
                    for st, acc in cur:
                        for s2, v in self.apply(f, [("idx", loc, c(k))], n, st):
                            if v[0] == "loc":
                                v = self.read(s2, v[1])
                            nxt.append((s2, acc + [v]))
                    cur = nxt
                for st, acc in cur:
                    old = self.read(st, tgt)
                    self.write(st, tgt, ("vec", (old[1] if old[0] == "vec" else ()) + tuple(acc)), n)
                    out.append((st, c(None)))
                return out
            el = ("idx", loc, ("any",))
            for s2, v in self.apply(f, [el], n, s):
                if v[0] == "loc":
                    v = self.read(s2, v[1])
                old = self.read(s2, tgt)
                self.write(s2, tgt, ("map", val, v) if old == ("vec", ()) else ("concat", old, ("map", val, v)), n)
                out.append((s2, c(None)))
            return out
        return None

    # ---- statements --------------------------------------------------------------------
    def ex(self, n, s, refret=False):
        if n is None:
            return [("next", s, None)]
        return getattr(self, "s_" + n["k"], self.s_unk)(n, s, refret)

    def s_unk(self, n, s, rr):
        return [("next", s, None)]

    def s_block(self, n, s, rr):
        outs = []
        cur = [s]
        fr0 = s.heap[("F",)]
        for st in n.get("s", []):
            nxt = []
            for x in cur:
                for kind, s2, v in self.ex(st, x, rr):
                    if kind == "next":
                        nxt.append((kind, s2, v))
                    else:
                        outs.append((kind, s2, v))
            cur = [x for _, x, _ in self.merge(nxt)] if len(nxt) > 1 else [x for _, x, _ in nxt]
            if not cur:
                break
        outs += [("next", x, None) for x in cur]
        decls = [v for st in n.get("s", []) if st and st["k"] == "decl" for v in st["vars"]]
        if decls:
            if self.objects:
                outs = [(kind, s3, v) for kind, s2, v in outs for s3 in self.destroy(decls, s2, fr0)]
            for kind, s2, v in outs:
                self.leave(decls, s2, fr0)
        return self.merge(outs)

    def leave(self, decls, s, fr):
        for v in reversed(decls):
            loc = s.heap.get(("D", v["id"], fr))
            if loc is None:
                continue
            val = s.heap.get(loc)
            if val is not None and val[0] == "lockobj":
                if loc[0] == "var":
                    held = val[2] in ("lock", "adopt") or (val[2] in ("try", "timed") and s.facts.get(("owns", val)))
                    if held:
                        for m in reversed(val[1]):
                            self.release(s, m, val[3])
            elif v["t"].startswith(LOCKS) and val is None:
                pass
            if loc[0] == "var" and loc[2] == v["id"]:
                for k in [k for k in s.heap if k == loc or (k[0] in ("fld", "idx", "nth") and self.prefix(loc, k))]:
                    del s.heap[k]
                s.subs.discard(loc)
            s.heap.pop(("D", v["id"], fr), None)
            for b in v.get("binds", []):
                s.heap.pop(("D", b["id"], fr), None)

    def bind(self, v, loc, s, fr):
        for b in v["binds"]:
            if b.get("f"):
                s.heap[("D", b["id"], fr)] = self.fldloc(loc, b["f"])
            else:
                val = self.read(s, loc)
                nm = ["first", "second"][b["i"]] if b["i"] < 2 else str(b["i"])
                if val[0] == "pair" and loc[0] in ("tmp",):
                    s.heap[("D", b["id"], fr)] = ("tmp", val[1 + b["i"]])
                else:
                    s.heap[("D", b["id"], fr)] = self.fldloc(loc, nm)

    def s_decl(self, n, s, rr):
        cur = [s]
        for v in n["vars"]:
            nxt = []
            for st in cur:
                fr = st.heap[("F",)]
                loc = ("var", v["n"], v["id"], fr)
                if v.get("static") :
                    st.heap[("D", v["id"], fr)] = ("glob", self.stack[-1][0]["q"] + "::" + v["n"]) if "const" not in v["t"] else loc
                    if "const" not in v["t"]:
                        nxt.append(st)
                        continue
                if v.get("init") is None:
                    st.heap[("D", v["id"], fr)] = loc
                    dv = self.default_value(v["t"])
                    st.heap[loc] = dv if dv[0] != "def" else ("uninit", v["n"], v["id"])
                    nxt.append(st)
                    continue
                isref = v["t"].endswith("&")
                if isref:
                    for s2, l in self.lv(v["init"], st):
                        if l[0] == "tmp":
                            s2.heap[("D", v["id"], fr)] = loc
                            self.wr(s2, loc, l[1])
                            l = loc
                        else:
                            s2.heap[("D", v["id"], fr)] = l
                        if v.get("binds"):
                            self.bind(v, l, s2, fr)
                        nxt.append(s2)
                else:
                    ini = v["init"]
                    if self.objects and ini.get("k") in ("ctor", "copyctor"):
                        r = self.construct_at(ini, st, loc)
                        if r is not None:
                            for s2 in r:
                                s2.heap[("D", v["id"], fr)] = loc
                                nxt.append(s2)
                            continue
                    for s2, val in self.ev(ini, st):
                        s2.heap[("D", v["id"], fr)] = loc
                        if v["t"].startswith(("std::vector<", "const std::vector<", "std::set<", "std::map<", "std::unordered_map<", "std::array<")) and val[0] == "def":
                            val = self.default_value(v["t"])
                        if val[0] == "obj" and val in s2.heap:
                            val = self.read(s2, val)
                        self.wr(s2, loc, val)
                        if v.get("binds"):
                            self.bind(v, loc, s2, fr)
                        nxt.append(s2)
            cur = nxt
        return [("next", x, None) for x in cur]

    def s_expr(self, n, s, rr):
        return [("next", s2, None) for s2, _ in self.ev(n["e"], s)]

    def s_if(self, n, s, rr):
        pre = []
        if n.get("init"):
            pre.append(n["init"])
        if n.get("cvar"):
            pre.append(n["cvar"])
        states = [s]
        fr = s.heap[("F",)]
        for p in pre:
            states = [x for st in states for _, x, _ in self.ex(p, st)]
        outs = []
        for st in states:
            for s2, v in self.ev(n["c"], st):
                for s3, b in self.branch(s2, v):
                    outs += self.ex(n["a"] if b else n["b"], s3, rr)
        decls = [v for p in pre if p["k"] == "decl" for v in p["vars"]]
        if decls:
            for _, s2, _ in outs:
                self.leave(decls, s2, fr)
        return self.merge(outs)

    def loop(self, s, cond, bind, body, inc, rr):
        outs, heads = [], [s]
        k = 0
        while heads:
            nxt = []
            for h in heads:
                for s2, v in (cond(h, k) if cond else [(h, TRUE)]):
                    v = as_bool(v)
                    r = self.truth(s2, v)
                    if r is None and k >= self.K:
                        outs += [("next", x, None) for x in self.assume(s2, v, False)]
                        continue
                    if r is True and k >= (self.K if not isc(v) else 64):
                        continue
                    if r is True and isc(v) and cond is None and k >= self.K:
                        continue
                    for s3, b in ([(s2, r)] if r is not None else self.branch(s2, v)):
                        if not b:
                            outs.append(("next", s3, None))
                        else:
                            for s4 in (bind(s3, k) if bind else [s3]):
                                nxt.append(s4)
            heads = []
            after = []
            for h in nxt:
                for kind, s2, v in self.ex(body, h, rr):
                    if kind in ("next", "cont"):
                        if inc:
                            for s3, _ in self.ev(inc, s2):
                                after.append(("next", s3, None))
                        else:
                            after.append(("next", s2, None))
                    elif kind == "break":
                        outs.append(("next", s2, None))
                    else:
                        outs.append((kind, s2, v))
            heads = [x for _, x, _ in self.merge(after)]
            k += 1
            if k > 70:
                break
        return self.merge(outs)

    def s_for(self, n, s, rr):
        fr = s.heap[("F",)]
        outs = []
        for _, st, _ in (self.ex(n["init"], s) if n.get("init") else [("next", s, None)]):
            cond = (lambda x, k: self.ev(n["c"], x)) if n.get("c") else None
            outs += self.loop(st, cond, None, n["body"], n.get("inc"), rr)
        if n.get("init") and n["init"]["k"] == "decl":
            for _, s2, _ in outs:
                self.leave(n["init"]["vars"], s2, fr)
        return outs

    def s_while(self, n, s, rr):
        return self.loop(s, lambda x, k: self.ev(n["c"], x), None, n["body"], None, rr)

    def s_do(self, n, s, rr):
        outs = []
        for kind, s2, v in self.ex(n["body"], s, rr):
            if kind in ("next", "cont"):
                cst = n["c"]
                if cst and cst["k"] in ("int", "bool") and not cst["v"]:
                    outs.append(("next", s2, None))
                else:
                    outs += self.loop(s2, lambda x, k: self.ev(cst, x), None, n["body"], None, rr)
            elif kind == "break":
                outs.append(("next", s2, None))
            else:
                outs.append((kind, s2, v))
        return self.merge(outs)

    def s_forr(self, n, s, rr):
        fr = s.heap[("F",)]
        outs = []
        v = n["var"]
        rt = v["t"]
        sts = [s]
        if n.get("init"):
            sts = [x for _, x, _ in self.ex(n["init"], s)]
        for st in sts:
            for s2, L in self.lv(n["range"], st):
                if L[0] == "tmp":
                    s2.n += 1
                    val0 = L[1]
                else:
                    val0 = self.read(s2, L)
                mapish = self.maplike(n["range"])
                keys = T.mapkeys(val0) if mapish or val0[0] == "mapset" else None
                mapish = mapish or keys is not None

                def cond(x, k, L=L, keys=keys):
                    if keys is not None:
                        return [(x, c(k < len(keys)))]
                    val = L[1] if L[0] == "tmp" else self.read(x, L)
                    return [(x, T.lt(c(k), T.size(val)))]

                def bind(x, k, L=L, keys=keys):
                    loc = ("var", v["n"], v["id"], fr)
                    if keys is not None:
                        sec = ("tmp", T.index(L[1], keys[k])) if L[0] == "tmp" else ("idx", L, keys[k])
                        if v["t"].endswith("&"):
                            if v.get("binds") and not any(b.get("f") for b in v["binds"]):
                                x.heap[("D", v["binds"][0]["id"], fr)] = ("tmp", keys[k])
                                if len(v["binds"]) > 1:
                                    x.heap[("D", v["binds"][1]["id"], fr)] = sec
                                return [x]
                            el = ("var", v["n"] + "@" + str(k), v["id"], fr)
                            x.heap[("D", v["id"], fr)] = el
                            self.wr(x, self.fldloc(el, "first"), keys[k])
                            if sec[0] == "tmp":
                                self.wr(x, self.fldloc(el, "second"), sec[1])
                            else:
                                x.heap[("ref", self.fldloc(el, "second"))] = sec
                        else:
                            el = loc
                            x.heap[("D", v["id"], fr)] = el
                            self.wr(x, el, ("rec", "std::pair", (("first", keys[k]), ("second", sec[1] if sec[0] == "tmp" else self.read(x, sec)))))
                        if v.get("binds"):
                            self.bind(v, el, x, fr)
                        return [x]
                    el = ("nth" if mapish else "idx", L, c(k))
                    if v["t"].endswith("&"):
                        x.heap[("D", v["id"], fr)] = el
                        l = el
                    else:
                        x.heap[("D", v["id"], fr)] = loc
                        self.wr(x, loc, self.read(x, el))
                        l = loc
                    if v.get("binds"):
                        self.bind(v, l, x, fr)
                    return [x]

                outs += self.loop(s2, cond, bind, n["body"], None, rr)
        for _, s2, _ in outs:
            self.leave([v], s2, fr)
        return self.merge(outs)

    def maplike(self, n):
        t = (n or {}).get("t", "")
        return ("map<" in t.split("basic_string")[0] or "set<" in t.split("basic_string")[0]) and not t.startswith("std::vector")

    def s_switch(self, n, s, rr):
        outs = []
        sts = [s]
        fr = s.heap[("F",)]
        for p in (n.get("init"), n.get("cvar")):
            if p:
                sts = [x for st in sts for _, x, _ in self.ex(p, st)]
        cases = n["cases"]
        for st in sts:
            for s2, v in self.ev(n["c"], st):
                pend = [s2]
                entries = []
                dflt = None
                for i, cs in enumerate(cases):
                    for lb in cs["labels"]:
                        if lb.get("default"):
                            dflt = i
                            continue
                        r = self.ev(lb["e"], s2)
                        lv = r[0][1] if r else c(lb.get("v"))
                        nxt = []
                        for x in pend:
                            for y, b in self.branch(x, T.eq(v, lv)):
                                if b:
                                    entries.append((i, y))
                                else:
                                    nxt.append(y)
                        pend = nxt
                for x in pend:
                    if dflt is not None:
                        entries.append((dflt, x))
                    else:
                        outs.append(("next", x, None))
                for i, x in entries:
                    cur = [x]
                    j = i
                    while cur and j < len(cases):
                        for stt in cases[j]["s"]:
                            nxt = []
                            for y in cur:
                                for kind, z, w in self.ex(stt, y, rr):
                                    if kind == "next":
                                        nxt.append(z)
                                    elif kind == "break":
                                        outs.append(("next", z, None))
                                    else:
                                        outs.append((kind, z, w))
                            cur = nxt
                        j += 1
                    outs += [("next", y, None) for y in cur]
        return self.merge(outs)

    def s_ret(self, n, s, rr):
        if n.get("e") is None:
            return [("ret", s, c(None))]
        if rr:
            return [("ret", s2, self.referred(s2, l)) for s2, l in self.lv(n["e"], s)]
        return [("ret", s2, v) for s2, v in self.ev(n["e"], s)]

    def referred(self, s, l):
        """what a returned reference denotes; a local that stands for a bound temporary is its value"""
        if l[0] == "tmp":
            return l[1]
        if l[0] == "var" and len(l) > 3 and l[3] == s.heap.get(("F",)) and l in s.heap:
            return self.read(s, l)
        return ("loc", l)

    def s_break(self, n, s, rr):
        return [("break", s, None)]

    def s_cont(self, n, s, rr):
        return [("cont", s, None)]

    def s_try(self, n, s, rr):
        outer = self.sink
        self.sink = mine = []
        fr = s.heap[("F",)]
        locks0 = s.locks
        self.in_try += 1
        try:
            outs = self.ex(n["body"], s, rr)
        finally:
            self.sink = outer
            self.in_try -= 1
        thrown = mine
        for st in thrown:
            h = self.handler(n["handlers"], st.exc)
            if h is None:
                outer.append(st)
                continue
            # unwind
            st.heap[("F",)] = fr
            st.locks = st.locks[:len(locks0)]
            old = st.heap.get(("curexc",))
            st.heap[("curexc",)] = st.exc
            exc = st.exc
            if h.get("var"):
                v = h["var"]
                loc = ("var", v["n"], v["id"], fr)
                st.heap[("D", v["id"], fr)] = loc
                st.heap[loc] = ("exc", exc[0])
            self.on_catch(st, h, exc)
            for o in self.ex(h["body"], st, rr):
                o[1].heap.pop(("curexc",), None)
                if old is not None:
                    o[1].heap[("curexc",)] = old
                if h.get("var"):
                    o[1].heap.pop(("D", h["var"]["id"], fr), None)
                    o[1].heap.pop(("var", h["var"]["n"], h["var"]["id"], fr), None)
                o[1].exc = None
                outs.append(o)
        return self.merge(outs)

    def on_catch(self, s, h, exc):
        pass

    def handler(self, hs, exc):
        for h in hs:
            if self.catches(h["t"], exc[0]):
                return h
        return None

    STD = {"std::runtime_error": ["std::exception"], "std::logic_error": ["std::exception"],
           "std::invalid_argument": ["std::logic_error", "std::exception"],
           "std::out_of_range": ["std::logic_error", "std::exception"],
           "std::domain_error": ["std::logic_error", "std::exception"],
           "std::length_error": ["std::logic_error", "std::exception"],
           "std::range_error": ["std::runtime_error", "std::exception"],
           "std::overflow_error": ["std::runtime_error", "std::exception"],
           "std::bad_alloc": ["std::exception"], "std::bad_variant_access": ["std::exception"],
           "std::bad_optional_access": ["std::exception"], "std::bad_function_call": ["std::exception"],
           "std::system_error": ["std::runtime_error", "std::exception"],
           "std::bad_cast": ["std::exception"]}

    def bases(self, t):
        t = t.replace("const ", "").replace("&", "").strip()
        out = [t] + self.STD.get(t, [])
        for r in self.db.recs.values():
            if r["t"] == t:
                for b in r["bases"]:
                    out += self.bases(b)
        if t.startswith(("rclcpp::", "pluginlib::", "class_loader::", "tinyxml2")) and "std::exception" not in out:
            out += ["std::runtime_error", "std::exception"]
        return out

    def catches(self, ht, et):
        if ht == "...":
            return True
        if et in ("<nonstd>",):
            return False
        ht = ht.replace("const ", "").replace("&", "").strip()
        return ht in self.bases(et)
