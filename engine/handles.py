"""Shared set-up of the interface checks (P11-P15): the drivers of tus/tr_handle.cpp are interpreted abstractly with
objects constructed, copied, moved and destroyed in place; locks, accesses to stored values and indirect calls are events."""
from . import terms as T
from .util import *

TYPES = {"double": "double", "float32": "float", "bool": "bool", "uint8": "unsigned char", "int8": "signed char",
         "uint16": "unsigned short", "int16": "short", "uint32": "unsigned int", "int32": "int"}
HANDLE = "hardware_interface::Handle"


class HInterp(Exact):
    objects = True
    inline_new = True
    MAXDEPTH = 20

    def __init__(self, db):
        super().__init__(db)
        r = db.rec(HANDLE)
        self.vals = {f["n"] for f in r["fields"] if "variant<" in f["t"]}
        self.ptrs = {f["n"] for f in r["fields"] if f["t"].replace(" ", "") == "double*"}
        self.mtx = {f["n"] for f in r["fields"] if "mutex" in f["t"]}
        self.other = {f["n"] for f in r["fields"]} - self.vals
        self.ext = ("sym", "p")

    def want_inline(self, fn, call):
        return not fn["q"].startswith(("hardware_interface::sto", "hardware_interface::parse_bool"))

    def owner(self, l):
        """the handle whose value is at location l, None if l is no interface value"""
        if l == ("deref", self.ext) or l == self.ext:
            return self.ext
        x = l
        while x[0] in ("fld", "idx"):
            if x[0] == "fld" and x[2] in self.vals and not (x[1][0] == "fld" and x[1][2] in self.other):
                return x[1]
            x = x[1]
        return None

    def making(self):
        return any(f.get("kind") in ("ctor", "dtor") for f, _ in self.stack)

    def guarded(self, s, o, write):
        for m, shared in s.locks:
            if m[0] == "fld" and m[2] in self.mtx and (m[1] == o or o == self.ext) and not (write and shared):
                return True
        return False

    def fn_driver(self):
        return "verif_tr::" in self.stack[-1][0]["q"]

    def ev_(self, s, e):
        s.tags["ev"] = s.tags.get("ev", ()) + (e,)

    def foreign(self):
        """inside a member of another class that happens to have a field of the same name"""
        for f, _ in reversed(self.stack):
            if f.get("cls"):
                return f["cls"] == HANDLE + "DataType"
        return False

    def on_read(self, s, l, node):
        o = self.owner(l) if not self.foreign() else None
        if o is not None and not self.fn_driver():
            self.ev_(s, ("read", o, self.making(), self.guarded(s, o, False), self.stack[-1][0]["q"], (node or {}).get("l", 0)))

    def on_write(self, s, l, val, node):
        o = self.owner(l) if not self.foreign() else None
        if o is not None and not self.fn_driver():
            self.ev_(s, ("write", o, self.making(), self.guarded(s, o, True), self.stack[-1][0]["q"], (node or {}).get("l", 0)))

    def on_lock(self, s, m, mode, node):
        self.ev_(s, ("lock", m, mode, self.stack[-1][0]["q"], (node or {}).get("l", 0), self.fn_driver(),
                     any(x == m for x, _ in s.locks)))

    def on_call(self, s, call):
        if call.fq == "<indirect>":
            self.ev_(s, ("call", call.recvv, tuple(call.args)))
            s.n += 1
            for l in call.argl[1:]:      # the limiter's flag
                if l[0] in ("fld", "var", "sym"):
                    self.wr(s, l, ("ret", "flag", s.n))
            return [(s, ("ret", "limited", s.n, call.recvv) + tuple(call.args[:1]))]
        if call.fq in ("std::this_thread::sleep_for", "std::this_thread::sleep_until"):
            self.ev_(s, ("sleep", call.fn, call.line))
        if call.fq == "std::this_thread::yield":
            return [(s, T.c(None))]
        return None

def events(s):
    return s.tags.get("ev", ())


def driver(db, name, pick=None):
    """the instantiations of a driver; pick: text of the last parameter's type"""
    fs = [f for f in db.fns.values() if strip_targs(f["q"]) == "verif_tr::" + name]
    if not fs:
        raise AnchorMissing("verif_tr::" + name)
    if pick is not None:
        fs = [f for f in fs if pick(f)]
    return fs


def vtype(f, name="v"):
    """type of the driver's parameter of the given name"""
    for p in f["params"]:
        if p["n"] == name:
            return p["t"].replace("const ", "").replace("&", "").strip()


def by_type(db, name, par="v"):
    return {vtype(f, par): f for f in driver(db, name)}


def run(ctx, f, **args):
    I = HInterp(ctx.db)
    outs = I.run(f, args={k: (T.c(v) if not isinstance(v, tuple) else v) for k, v in args.items()})
    ctx.saw_interp(I, outs)
    return I, outs


def final(s, name):
    """value a path left in the driver's output parameter, None if untouched"""
    return s.heap.get(("sym", name))


def owned(I, s):
    """whether the path's (non-blocking) lock was obtained; None if no try-lock took place"""
    r = [b for a, b in s.facts.items() if a[0] == "owns"]
    return None if not r else r[-1]
