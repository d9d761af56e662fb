"""Shared set-up of the hardware component checks (P16-P18): drivers of tus/tr_hw.cpp interpreted abstractly, with the
plugin's virtual functions answered by every possible result."""
from . import terms as T
from .interp import State
from .util import *

UNKNOWN, UNCONF, INACTIVE, ACTIVE, FINAL = 0, 1, 2, 3, 4
NAMES = {0: "UNKNOWN", 1: "UNCONFIGURED", 2: "INACTIVE", 3: "ACTIVE", 4: "FINALIZED"}
LABELS = {0: "unknown", 1: "unconfigured", 2: "inactive", 3: "active", 4: "finalized"}
OPS = ["initialize", "configure", "cleanup", "shutdown", "activate", "deactivate", "error"]
CALLBACKS = {"on_init", "on_configure", "on_cleanup", "on_shutdown", "on_activate", "on_deactivate", "on_error"}
CR = {"SUCCESS": 97, "FAILURE": 98, "ERROR": 99}
IFACE = "hardware_interface::HardwareComponentInterface"


def state_term(v):
    while v[0] == "make" and len(v) == 3 and v[2][0] == "make":
        v = v[2]
    return v if v[0] == "make" and v[1] == "rclcpp_lifecycle::State" and len(v) == 4 else None


def sid(v):
    v = state_term(v)
    return num(v[2]) if v else None


class HwInterp(Exact):
    objects = True
    inline_new = True
    MAXDEPTH = 24
    LIMIT = 4000
    lean = False

    def __init__(self, db):
        super().__init__(db)
        self.cr, self.crq = CR, "rclcpp_lifecycle::node_interfaces::LifecycleNodeInterface::CallbackReturn"
        self.rtq = "hardware_interface::return_type"
        self.rt = enumvals(db, self.rtq)

    def want_inline(self, fn, call):
        # measurements do not influence what happens to the hardware
        return "statistics_types" not in fn.get("file", "") and not fn["q"].startswith("rclcpp")

    def ev_(self, s, e):
        s.tags["ev"] = s.tags.get("ev", ()) + (e,)

    def locked(self, s):
        return tuple((m, shared) for m, shared in s.locks)

    def state_id(self, s):
        return s.tags.get("id")

    def on_call(self, s, call):
        n, fq = call.name, call.fq
        cls = fq.rsplit("::", 1)[0]
        if cls == "rclcpp_lifecycle::State" and n in ("id", "label") and call.recvv is not None:
            v = state_term(call.recvv)
            return [(s, v[2] if n == "id" else v[3])] if v else None
        if n in CALLBACKS and ("LifecycleNodeInterface" in cls or cls == IFACE):
            out = []
            self.ev_(s, ("cb", n, self.locked(s), call.fn, call.line, sid(call.args[0]) if call.args else None))
            for m, v in self.cr.items():
                s2 = s.copy()
                self.ev_(s2, ("res", n, m))
                out.append((s2, ("enum", self.crq + "::" + m, v)))
            return out
        if n in ("read", "write") and cls == IFACE:
            self.ev_(s, ("io", n, bool(s.tags.get("worker")), tuple(call.args), call.fn, call.line))
            out = []
            for m, v in self.rt.items():
                s2 = s.copy()
                self.ev_(s2, ("res", n, m))
                out.append((s2, ("enum", self.rtq + "::" + m, v)))
            return out
        if "AsyncFunctionHandler" in cls:
            self.ev_(s, ("async", n, call.fn, call.line))
            if n == "init":
                s.tags["cb"] = call.args[0]
            if n == "trigger_async_callback":
                return self.trigger(s, call)
            return [(s, T.c(None))]
        if self.lean and n in ("count", "get_clock_type") and ("chrono" in cls or cls == "rclcpp::Time"):
            return [(s, T.c(0))]      # times, which only feed the statistics
        if fq == "verif_tr::mark":
            self.ev_(s, ("mark",))
            return [(s, T.c(None))]
        if "RegistrationsRAII" in cls:
            self.ev_(s, ("introspection", n))
            return [(s, T.c(None))]
        return None

    def pair(self, ok, r):
        return ("rec", "std::pair", (("first", T.c(ok)), ("second", r)))

    def trigger(self, s, call):
        busy = s.copy()
        self.ev_(busy, ("res", "async", "busy"))
        ok = ("enum", self.rtq + "::OK", self.rt["OK"])
        out = [(busy, self.pair(False, ok))]
        self.ev_(s, ("res", "async", "run"))
        cb = s.tags.get("cb")
        if cb is None:
            out.append((s, self.pair(True, ok)))
            return out
        s.tags["worker"] = True
        for s2, v in self.apply(cb, list(call.argl), call.node, s):
            s2.tags["worker"] = False
            out.append((s2, self.pair(True, v)))
        return out


def enumvals(db, q):
    e = db.enums.get(q)
    return {v["n"]: v["v"] for v in e["vals"]} if e else {}


def events(s):
    return s.tags.get("ev", ())


def driver(db, name):
    return db.one("verif_tr::" + name)


def run(ctx, name, **args):
    I = HwInterp(ctx.db)
    I.lean = args.pop("lean", False)
    f = driver(ctx.db, name)
    if args.get("label") is None and "start" in args:
        args["label"] = LABELS[args["start"]]
    st = State()
    I.assume(st, ("sym", "p"), True)
    outs = I.run(f, args={k: (T.c(v) if not isinstance(v, tuple) else v) for k, v in args.items()}, state=st)
    ctx.saw_interp(I, outs)
    return I, f, outs


def num(v):
    """numeric value of a constant or enumerator, None if not constant"""
    if v is None:
        return None
    if v[0] == "enum":
        return v[2]
    return v[1] if T.isc(v) and isinstance(v[1], int) else None
