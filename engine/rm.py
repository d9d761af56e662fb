"""Shared set-up of the resource manager checks (P18-P24): the resource manager's entry points are interpreted
abstractly over a symbolic storage with two components, whose operations are answered by every possible outcome."""
from . import terms as T
from .interp import State
from .util import *
from .hw import enumvals, num, UNKNOWN, UNCONF, INACTIVE, ACTIVE, FINAL, NAMES, LABELS, state_term

RM = "hardware_interface::ResourceManager::"
HC = "hardware_interface::HardwareComponent"
STORE = T.deref(("fld", ("this",), "resource_storage_"))
# operation: start states, end states of a normal outcome, end states of an error
LIFE = {
    "configure": ({UNCONF}, {INACTIVE, UNCONF}),
    "cleanup": ({INACTIVE}, {UNCONF, FINAL}),
    "shutdown": ({UNCONF, INACTIVE, ACTIVE}, {FINAL, UNCONF}),
    "activate": ({INACTIVE}, {ACTIVE, INACTIVE, UNCONF, FINAL}),
    "deactivate": ({ACTIVE}, {INACTIVE, ACTIVE, UNCONF, FINAL}),
    "error": ({INACTIVE, ACTIVE, FINAL}, {UNCONF, FINAL}),
}
THROWS = ("std::runtime_error", "int")


def fld(*names):
    t = STORE
    for n in names:
        t = ("fld", t, n)
    return t


def strs(*xs):
    return ("vec", tuple(T.c(x) for x in xs))


class Comp:
    """one symbolic hardware component: kind, lifecycle state and the interfaces it exported"""
    def __init__(self, kind, name, state=ACTIVE, cmd=(), st=(), group="", throws=True, rate=0):
        self.kind, self.name, self.state, self.cmd, self.st, self.group, self.throws, self.rate = kind, name, state, cmd, st, group, throws, rate


class RmInterp(Exact):
    objects = True
    inline_new = True
    at_throws = True
    MAXDEPTH = 20
    LIMIT = 60000

    def __init__(self, db, comps, results=None):
        super().__init__(db)
        self.comps = {c.name: c for c in comps}
        self.bykind = {}
        for c in comps:
            self.bykind.setdefault(c.kind + "s_", []).append(c)
        self.rtq = "hardware_interface::return_type"
        self.rt = enumvals(db, self.rtq)
        self.results = results or {}
        self.throws = True
        self.skip = ()
        self.lockmodes = set()

    def on_lock(self, s, mutex, mode, node):
        self.lockmodes.add((mutex, mode))

    def want_inline(self, fn, call):
        if fn.get("cls", "") == HC or "statistics_types" in fn.get("file", "") or fn["q"].startswith("rclcpp"):
            return False
        return call.name not in self.skip

    def comp_of(self, loc):
        """the component a location denotes"""
        if loc is not None and loc[0] == "idx" and loc[1][0] == "fld" and T.is_num(loc[2]):
            cs = self.bykind.get(loc[1][2])
            if cs and 0 <= loc[2][1] < len(cs):
                return cs[loc[2][1]]
        if loc is not None and loc[0] == "sym" and loc[1] in self.comps:
            return self.comps[loc[1]]
        return None

    def lc(self, s, comp):
        return dict(s.tags["st"])[comp.name]

    def set_lc(self, s, comp, st):
        d = dict(s.tags["st"])
        d[comp.name] = st
        s.tags["st"] = tuple(sorted(d.items()))

    def ev_(self, s, *e):
        s.tags["ev"] = s.tags.get("ev", ()) + (e,)

    def state_value(self, st):
        return ("make", "rclcpp_lifecycle::State", T.c(st), T.c(LABELS[st]))

    def thrown(self, s, comp, op, call):
        if not (self.throws and comp.throws):
            return
        for t in THROWS:
            s2 = s.copy()
            self.ev_(s2, "res", op, comp.name, "throw " + t)
            s2.exc = (t, call.line, op)
            self.sink.append(s2)

    def on_call(self, s, call):
        n, fq = call.name, call.fq
        cls = fq.rsplit("::", 1)[0]
        if cls == "rclcpp_lifecycle::State" and n in ("id", "label"):
            v = call.recvv if call.recvv is not None else None
            v = state_term(v) if v is not None else None
            return [(s, v[2] if n == "id" else v[3])] if v else None
        if cls == HC or fq.startswith(HC + "::"):
            comp = self.comp_of(call.recv) or (self.comp_of(call.recvv) if call.recvv else None)
            if comp is None:
                return None
            return self.comp_call(s, call, comp, n)
        return None

    def comp_call(self, s, call, comp, n):
        if n == "get_name":
            return [(s, T.c(comp.name))]
        if n == "get_group_name":
            return [(s, T.c(comp.group))]
        if n == "get_mutex":
            return [(s, ("loc", ("sym", "mutex of " + comp.name)))]
        if n == "get_lifecycle_id":
            return [(s, T.c(self.lc(s, comp)))]
        if n == "get_lifecycle_state":
            return [(s, self.state_value(self.lc(s, comp)))]
        locks = tuple(m for m, _ in s.locks)
        if n in LIFE:
            start, ends = LIFE[n]
            cur = self.lc(s, comp)
            self.ev_(s, "life", n, comp.name, cur, locks)
            if cur not in start:
                return [(s, self.state_value(cur))]
            self.thrown(s, comp, n, call)
            out = []
            for e in sorted(ends | ({FINAL} if n not in ("configure",) else set())):
                s2 = s.copy()
                self.ev_(s2, "res", n, comp.name, e)
                self.set_lc(s2, comp, e)
                out.append((s2, self.state_value(e)))
            return out
        if n in ("read", "write"):
            self.ev_(s, "io", n, comp.name, self.lc(s, comp), locks, tuple(call.args))
            self.thrown(s, comp, n, call)
            out = []
            for m, v in self.rt.items():
                s2 = s.copy()
                self.ev_(s2, "res", n, comp.name, m)
                out.append((s2, ("enum", self.rtq + "::" + m, v)))
            return out
        if n in ("prepare_command_mode_switch", "perform_command_mode_switch"):
            self.ev_(s, "mode", n, comp.name, self.lc(s, comp), tuple(call.args))
            self.thrown(s, comp, n, call)
            out = []
            for m, v in self.rt.items():
                if m == "DEACTIVATE":
                    continue
                s2 = s.copy()
                self.ev_(s2, "res", n, comp.name, m)
                out.append((s2, ("enum", self.rtq + "::" + m, v)))
            return out
        return None


def put(I, s, name, val):
    """sets a member of the resource storage the analysis relies on"""
    r = I.db.rec("hardware_interface::ResourceStorage")
    if name not in {x["n"] for x in r["fields"]}:
        from .db import AnchorMissing
        raise AnchorMissing("hardware_interface::ResourceStorage::" + name)
    I.wr(s, fld(name), val)


def start(I, comps, avail=None):
    """symbolic resource manager holding the given components"""
    s = State()
    for kind in ("actuators_", "sensors_", "systems_"):
        put(I, s, kind, ("vec", tuple(("sym", c.name) for c in I.bykind.get(kind, ()))))
    m = ("vec", ())
    for c in comps:
        m = ("mapset", m, T.c(c.name), ("rec", "hardware_interface::HardwareComponentInfo", (
            ("command_interfaces", strs(*c.cmd)), ("state_interfaces", strs(*c.st)), ("rw_rate", T.c(c.rate)))))
    put(I, s, "hardware_info_map_", m)
    s.tags["st"] = tuple(sorted((c.name, c.state) for c in comps))
    av = [c for c in comps if (avail is None and c.state in (INACTIVE, ACTIVE)) or (avail is not None and c.name in avail)]
    put(I, s, "available_command_interfaces_", strs(*[x for c in av for x in c.cmd]))
    put(I, s, "available_state_interfaces_", strs(*[x for c in av for x in c.st]))
    return s


def events(s):
    return s.tags.get("ev", ())


def run(ctx, fname, comps, args=None, setup=None, interp=None, **kw):
    """outcomes of a resource manager entry point over the given components"""
    I = (interp or RmInterp)(ctx.db, comps)
    for k, v in kw.items():
        setattr(I, k, v)
    s = start(I, comps, kw.get("avail"))
    if setup:
        setup(I, s)
    f = ctx.db.find(RM + fname)
    if len(f) != 1:
        f = [x for x in f if x.get("access", "public") == "public"] or f
    if not f:
        from .db import AnchorMissing
        raise AnchorMissing(RM + fname)
    outs = I.run(f[0], args=args or {}, state=s)
    ctx.saw_interp(I, outs)
    return I, outs


def final(I, s, f):
    return I.read(s, fld(f))
