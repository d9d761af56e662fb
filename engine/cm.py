"""Shared set-up of the controller manager checks (P27-P35): the manager's entry points are interpreted abstractly over
symbolic controllers and a resource manager whose operations are answered by every possible outcome."""
from . import terms as T
from .interp import State
from .util import *
from .hw import enumvals, num, UNKNOWN, UNCONF, INACTIVE, ACTIVE, FINAL, NAMES, LABELS, state_term

CM = "controller_manager::ControllerManager::"
RM = "hardware_interface::ResourceManager::"
RTLIST = ("sym", "rtlist")
SPEC = "controller_manager::ControllerSpec"
INFO = "hardware_interface::ControllerInfo"
CFG = "controller_interface::interface_configuration_type"
THROWS = ("std::runtime_error", "int")
SWITCH = ("fld", ("this",), "switch_params_")
BUF = ("fld", ("this",), "rt_buffer_")


def strs(*xs):
    return ("vec", tuple(T.c(x) for x in xs))


def lst(v):
    """python list of a concrete vector of strings, None if not concrete"""
    if v is not None and v[0] == "vec" and all(x[0] == "c" for x in v[1]):
        return [x[1] for x in v[1]]
    return None


class Ctl:
    """one symbolic controller"""
    def __init__(self, name, state=ACTIVE, cmd=(), st=(), ctype="INDIVIDUAL", stype="INDIVIDUAL", rate=0, is_async=False, chainable=False, chained=False,
                 fallbacks=(), group=None, throws=True, extra=()):
        self.name, self.state, self.cmd, self.st, self.ctype, self.stype = name, state, tuple(cmd), tuple(st), ctype, stype
        self.rate, self.is_async, self.chainable, self.chained, self.fallbacks = rate, is_async, chainable, chained, tuple(fallbacks)
        self.group = tuple(group) if group is not None else (name,)
        self.throws = throws
        self.extra = extra

    @property
    def ptr(self):
        return ("sym", "ctl " + self.name)


def has_call(t, name):
    return t is not None and any(isinstance(x, tuple) and x and isinstance(x[0], str) and any(isinstance(y, str) and y.rsplit("::", 1)[-1] == name for y in x[:3]) for x in T.subterms(t))


class CmInterp(Exact):
    objects = True
    inline_new = True
    at_throws = True
    MAXDEPTH = 20
    LIMIT = 60000
    HANDLE_EXC = True

    def __init__(self, db, ctls, rate=100):
        super().__init__(db)
        self.ctls = {c.name: c for c in ctls}
        self.rtq = "controller_interface::return_type"
        self.rt = enumvals(db, self.rtq)
        self.hrtq = "hardware_interface::return_type"
        self.hrt = enumvals(db, self.hrtq)
        self.cfg = enumvals(db, CFG)
        self.rate = rate
        self.stubs = {}      # name of a function -> handler(I, s, call) or True to record the call only
        self.avail_cmd, self.avail_st = [], []
        self.rm_throws = True
        self.node_throws = True
        self.update_throws = True
        self.claimed = None
        self.hooks = []
        self.clock_started = True
        self.measured = False    # updates report their execution time and period
        self.elapsed = {}    # controller name -> seconds since its last update
        self.last = {}       # controller name -> value of its last update time

    def want_inline(self, fn, call):
        return not ("statistics_types" in fn.get("file", "") or fn["q"].startswith("rclcpp") or fn["q"].startswith("controller_interface::") and "::helpers" not in fn["q"]
                    or fn["q"].startswith("hardware_interface::ResourceManager"))

    def ev_(self, s, *e):
        s.tags["ev"] = s.tags.get("ev", ()) + (e,)

    def lc(self, s, c):
        return dict(s.tags["st"])[c.name]

    def set_lc(self, s, c, st):
        d = dict(s.tags["st"])
        d[c.name] = st
        s.tags["st"] = tuple(sorted(d.items()))

    def ctl_of(self, t):
        """the controller a receiver denotes, with the role (controller or node)"""
        d = 0
        while t is not None and t[0] in ("deref", "addr", "tmp", "loc", "mut", "upd") and d < 8:
            t = t[1] if t[0] != "mut" else t[3]
            d += 1
        if t is not None and t[0] == "sym" and isinstance(t[1], str):
            for role in ("ctl ", "node "):
                if t[1].startswith(role) and t[1][len(role):] in self.ctls:
                    return self.ctls[t[1][len(role):]], role.strip()
        return None, None

    def state_value(self, st):
        return ("make", "rclcpp_lifecycle::State", T.c(st), T.c(LABELS[st]))

    def ret_enum(self, m):
        return ("enum", self.rtq + "::" + m, self.rt[m])

    def throw(self, s, call, what, *ev):
        for t in THROWS:
            s2 = s.copy()
            self.ev_(s2, *ev, "throw " + t)
            s2.exc = (t, call.line, what)
            self.sink.append(s2)

    def elapsed_of(self, t):
        """seconds since the last update of a controller, when t is the difference of a current time and that time"""
        if t[0] in ("tmp",):
            return self.elapsed_of(t[1])
        if t[0] == "-" and len(t) == 3:
            for n, v in self.last.items():
                if t[2] == v and n in self.elapsed:
                    return self.elapsed[n]
        if t[0] == "make" and t[1] == "rclcpp::Time" and T.is_num(t[2]) and T.is_num(t[3]):
            return t[2][1] + t[3][1] / 1e9
        return None

    def vals(self, s, call):
        return tuple(call.args)

    def on_call(self, s, call):
        n, fq = call.name, call.fq
        cls = fq.rsplit("::", 1)[0]
        if cls == "rclcpp_lifecycle::State" and n in ("id", "label") and call.recvv is not None:
            v = state_term(call.recvv)
            return [(s, v[2] if n == "id" else v[3])] if v else None
        for h in self.hooks:
            r = h(self, s, call)
            if r is not None:
                return r
        if n in self.stubs and (cls.startswith("controller_manager") or cls.startswith("hardware_interface") or "::" not in fq or fq.startswith("(anonymous")):
            h = self.stubs[n]
            self.ev_(s, "call", n, self.vals(s, call))
            if h is True:
                return [(s, T.c(None))]
            return h(self, s, call)
        if n == "add_measurement":
            x = self.spec_of(call.recv) or (self.spec_of(call.recvv) if call.recvv is not None else None)
            if x:
                self.ev_(s, "measure", x[0], x[1], call.args[0] if call.args else None)
                return [(s, T.c(None))]
        if n == "reset":
            x = self.spec_of(call.recv) or (self.spec_of(call.recvv) if call.recvv is not None else None)
            if x:
                self.ev_(s, "reset", x[0], x[1])
                return [(s, T.c(None))]
        if n == "update_and_get_used_by_rt_list":
            self.ev_(s, "rtlist")
            return [(s, ("loc", RTLIST))]
        c, role = self.ctl_of(call.recv)
        if c is None and call.recvv is not None:
            c, role = self.ctl_of(call.recvv)
        if c is not None:
            return self.ctl_call(s, call, c, role, n)
        if fq.startswith(RM):
            return self.rm_call(s, call, n)
        if n in ("now",) and ("Clock" in cls or cls.startswith("controller_manager") or "Node" in cls):
            s.n += 1
            v = ("sym", f"now{s.n}")
            self.ev_(s, "now", v, "trigger" if any(x is not None and (has_call(x, "get_trigger_clock") or has_call(x, "trigger_clock_")) for x in (call.recv, call.recvv)) else "node")
            return [(s, v)]
        if n == "started" and "Clock" in cls:
            return [(s, T.c(self.clock_started))]
        if n in ("seconds", "nanoseconds") and self.elapsed and call.recvv is not None:
            x = self.elapsed_of(call.recvv)
            if x is not None:
                return [(s, T.c(x if n == "seconds" else int(round(x * 1e9))))]
        if n == "get_clock_type":
            return [(s, T.c(0))]
        if n in ("count",) and "chrono" in cls:
            took = call.recvv is not None and has_sub(call.recvv, lambda x: x[0] == "sym" and str(x[1]).startswith("took "))
            return [(s, ("count", call.recvv) if took else T.c(0))]
        return None

    def spec_of(self, t):
        """(controller, what) of a symbol of a controller's record: exec, per, last"""
        d = 0
        while t is not None and isinstance(t, tuple) and t[0] in ("deref", "addr", "tmp", "loc", "upd") and d < 8:
            t = t[1]
            d += 1
        if isinstance(t, tuple) and t[0] == "sym" and isinstance(t[1], str):
            k, _, n = t[1].partition(" ")
            if k in ("exec", "per", "last") and n in self.ctls:
                return n, k
        return None

    def on_write(self, s, loc, val, node):
        x = self.spec_of(loc)
        if x and x[1] == "last":
            self.ev_(s, "reset" if self.zero_time(val) else "lastset", x[0], x[1], val)

    def zero_time(self, v):
        return v[0] == "make" and "Time" in str(v[1]) and all(T.is_num(x) and x[1] == 0 for x in v[2:4])

    def ctl_call(self, s, call, c, role, n):
        if role == "node":
            if n in ("activate", "deactivate", "configure", "cleanup", "shutdown"):
                self.ev_(s, "node", n, c.name, self.lc(s, c))
                if c.throws and self.node_throws:
                    self.throw(s, call, n, "res", n, c.name)
                ends = {"activate": (ACTIVE, INACTIVE, UNCONF, FINAL), "deactivate": (INACTIVE, UNCONF, FINAL, ACTIVE), "configure": (INACTIVE, UNCONF, FINAL),
                        "cleanup": (UNCONF, INACTIVE, FINAL), "shutdown": (FINAL, UNCONF)}[n]
                need = {"activate": (INACTIVE,), "deactivate": (ACTIVE,), "configure": (UNCONF,), "cleanup": (INACTIVE,), "shutdown": (UNCONF, INACTIVE, ACTIVE)}[n]
                if self.lc(s, c) not in need:
                    return [(s, self.state_value(self.lc(s, c)))]
                out = []
                for e in ends:
                    s2 = s.copy()
                    self.ev_(s2, "res", n, c.name, e)
                    self.set_lc(s2, c, e)
                    out.append((s2, self.state_value(e)))
                return out
            if n == "get_name":
                return [(s, T.c(c.name))]
            return None
        if n == "get_node":
            return [(s, ("sym", "node " + c.name))]
        if n == "get_name":
            return [(s, T.c(c.name))]
        if n == "get_lifecycle_state":
            return [(s, self.state_value(self.lc(s, c)))]
        if n == "get_lifecycle_id":
            return [(s, T.c(self.lc(s, c)))]
        if n == "get_update_rate":
            return [(s, T.c(c.rate or self.rate))]
        if n == "is_async":
            return [(s, T.c(c.is_async))]
        if n == "is_chainable":
            return [(s, T.c(c.chainable))]
        if n == "is_in_chained_mode":
            return [(s, T.c(c.chained))]
        if n in ("command_interface_configuration", "state_interface_configuration"):
            t, names = (c.ctype, c.cmd) if n.startswith("command") else (c.stype, c.st)
            return [(s, ("rec", "controller_interface::InterfaceConfiguration", (("type", ("enum", CFG + "::" + t, self.cfg[t])), ("names", strs(*names)))))]
        if n == "trigger_update":
            self.ev_(s, "update", c.name, self.lc(s, c), tuple(call.args))
            if c.throws and self.update_throws:
                self.throw(s, call, n, "res", "update", c.name)
            out = []
            for ok in (True, False):
                for m in self.rt:
                    s2 = s.copy()
                    self.ev_(s2, "res", "update", c.name, m, ok)
                    opt = (lambda x: ("some", ("sym", x + c.name)) if self.measured else ("nullopt",))
                    out.append((s2, ("rec", "controller_interface::ControllerUpdateStatus", (("successful", T.c(ok)), ("result", self.ret_enum(m)),
                                                                                           ("execution_time", opt("took ")), ("period", opt("period "))))))
            return out
        if n == "set_chained_mode":
            self.ev_(s, "chained", c.name, self.lc(s, c), call.args[0])
            return [(s.copy(), T.c(True)), (s, T.c(False))]
        if n in ("release_interfaces", "assign_interfaces", "wait_for_trigger_update_to_finish", "prepare_for_deactivation"):
            self.ev_(s, n.split("_")[0], c.name, self.lc(s, c), tuple(call.args))
            return [(s, T.c(None))]
        return None

    def rm_call(self, s, call, n):
        if n in ("available_command_interfaces", "available_state_interfaces"):
            return [(s, strs(*(self.avail_cmd if "command" in n else self.avail_st)))]
        if n in ("prepare_command_mode_switch", "perform_command_mode_switch"):
            self.ev_(s, "mode", n.split("_")[0], tuple(call.args))
            out = []
            for b in (True, False):
                s2 = s.copy()
                self.ev_(s2, "res", n.split("_")[0], b)
                out.append((s2, T.c(b)))
            return out
        if n == "command_interface_is_claimed":
            if self.claimed is not None:
                return [(s, T.c(call.args[0][1] in self.claimed))]
            out = []
            for b in (False, True):
                s2 = s.copy()
                self.ev_(s2, "claimed", call.args[0], b)
                out.append((s2, T.c(b)))
            return out
        if n in ("claim_command_interface", "claim_state_interface"):
            self.ev_(s, "claim", n.split("_")[1], call.args[0])
            if self.rm_throws:
                s2 = s.copy()
                self.ev_(s2, "res", "claim", call.args[0], "throw")
                s2.exc = ("std::runtime_error", call.line, n)
                self.sink.append(s2)
            return [(s, ("sym", f"loan of {call.args[0][1]}"))]
        if n.startswith("make_controller_"):
            self.ev_(s, "export", n, call.args[0])
            return [(s, T.c(None))]
        if n in ("enforce_command_limits",):
            self.ev_(s, "enforce", tuple(call.args))
            return [(s, T.c(None))]
        return None


def spec_value(I, c):
    info = ("rec", INFO, (("name", T.c(c.name)), ("type", T.c("t")), ("claimed_interfaces", strs(*getattr(c, "claims", ()))), ("fallback_controllers_names", strs(*c.fallbacks))))
    return ("rec", SPEC, (("info", info), ("c", c.ptr), ("last_update_cycle_time", ("sym", "last " + c.name)), ("controllers_chain_group", strs(*c.group)),
                          ("execution_time_statistics", ("sym", "exec " + c.name)), ("periodicity_statistics", ("sym", "per " + c.name))))


def need_fields(db, rec, *names):
    from .db import AnchorMissing
    r = db.rec(rec)
    have = {x["n"] for x in r["fields"]}
    for n in names:
        if n not in have:
            raise AnchorMissing(rec + "::" + n)


def start(I, ctls):
    db = I.db
    need_fields(db, SPEC, "info", "c", "last_update_cycle_time", "controllers_chain_group")
    need_fields(db, INFO, "name", "fallback_controllers_names")
    need_fields(db, CM[:-2], "switch_params_", "rt_buffer_", "params_", "resource_manager_", "update_rate_")
    s = State()
    I.wr(s, RTLIST, ("vec", tuple(spec_value(I, c) for c in ctls)))
    s.tags["st"] = tuple(sorted((c.name, c.state) for c in ctls))
    for n, v in I.last.items():
        I.wr(s, T.deref(("sym", "last " + n)), v)
    this = ("this",)
    I.wr(s, ("fld", this, "update_rate_"), T.c(I.rate))
    for f in ("do_switch", "activate_asap", "ready_to_switch"):
        I.wr(s, ("fld", SWITCH, f), T.c(False))
    for f in ("deactivate_controllers_list", "activate_controllers_using_interfaces_list", "fallback_controllers_list", "interfaces_to_start", "interfaces_to_stop"):
        I.wr(s, ("fld", BUF, f), strs("stale"))
    for f in ("activate_request", "deactivate_request", "to_chained_mode_request", "from_chained_mode_request", "activate_command_interface_request", "deactivate_command_interface_request"):
        I.wr(s, ("fld", SWITCH, f), strs())
    p = T.deref(("fld", this, "params_"))
    I.wr(s, ("fld", p, "handle_exceptions"), T.c(I.HANDLE_EXC))
    return s


def events(s):
    return s.tags.get("ev", ())


def run(ctx, fname, ctls, args=None, setup=None, interp=CmInterp, fns=None, **kw):
    I = interp(ctx.db, ctls)
    for k, v in kw.items():
        setattr(I, k, v)
    s = start(I, ctls)
    if setup:
        setup(I, s)
    f = fns or ctx.db.find(CM + fname)
    if not f:
        from .db import AnchorMissing
        raise AnchorMissing(CM + fname)
    outs = I.run(f[0], args=args or {}, state=s)
    ctx.saw_interp(I, outs)
    return I, outs
