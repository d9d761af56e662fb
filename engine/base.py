"""interpretation of the controller base classes over an abstract lifecycle node"""
from . import terms as T
from .interp import State
from .util import *
from .hw import CR
from .cm import UNCONF, INACTIVE, ACTIVE, FINAL, enumvals, need_fields

BASE = "controller_interface::ControllerInterfaceBase::"
IMPL = T.deref(("fld", ("this",), "impl_"))
CALLBACKS = ("configure", "cleanup", "activate", "deactivate", "shutdown", "error")
RESULTS = ("SUCCESS", "FAILURE", "ERROR")
TRANS = {"configure": 10, "cleanup": 11, "shutdown": 12, "activate": 13, "deactivate": 14, "error": 15}


class BaseInterp(Exact):
    objects = True
    inline_new = True
    params = {}                  # values of node parameters
    ends = (INACTIVE, UNCONF, FINAL)
    user = ()                    # further virtual functions of the user
    policy = None

    def __init__(self, db):
        super().__init__(db)
        self.rt = enumvals(db, "controller_interface::return_type")

    def ev_(self, s, *e):
        s.tags["ev"] = s.tags.get("ev", ()) + (e,)

    def want_inline(self, fn, call):
        return fn["q"].startswith(("controller_interface::", "ros2_control::")) or "(anonymous" in fn["q"] or super().want_inline(fn, call)

    def truth_hook(self, s, t):
        obj = lambda x: x[0] == "sym" and x[1] in ("node", "handler")
        x = t[1] if t[0] == "bool" and len(t) > 1 else t
        if obj(x):
            return True
        if t[0] == "==" and len(t) == 3 and any(obj(x) for x in t[1:]) and (T.c(None) in t[1:] or T.c(None) in t[1:]):
            return False
        return super().truth_hook(s, t)

    def state_value(self, lc):
        return ("make", "rclcpp_lifecycle::State", T.c(lc), T.c(""))

    def node_state(self, s):
        return self.state_value(s.tags["lc"])

    def state_of(self, v):
        d = 0
        while v is not None and v[0] in ("tmp", "loc", "upd", "addr", "deref") and d < 6:
            v, d = v[1], d + 1
        return v if v is not None and v[0] == "make" and "State" in v[1] else None

    def snap(self, s):
        g = lambda f: self.read(s, ("fld", IMPL, f))
        return (s.tags["running"], g("skip_async_triggers_"), g("lifecycle_id_"), self.read(s, ("fld", ("this",), "command_interfaces_")), self.read(s, ("fld", ("this",), "state_interfaces_")))

    def on_call(self, s, call):
        n, fq = call.name, call.fq
        cls = fq.rsplit("::", 1)[0]
        node = "LifecycleNode" in cls or "NodeCommon" in cls or cls.endswith("::Node")
        if n == "make_shared" and "LifecycleNode" in repr(call.node.get("t", "")):
            return [(s, ("sym", "node"))]
        if n.startswith("register_on_") and node:
            self.ev_(s, "register", n[12:], call.args[0])
            return [(s, T.c(None))]
        if n == "auto_declare":
            return [(s, T.c(None))]
        if node and n in ("get_current_state",):
            return [(s, self.node_state(s))]
        if cls == "rclcpp_lifecycle::State" and n in ("id", "label") and call.recvv is not None:
            v = self.state_of(call.recvv) or self.state_of(call.recv)
            return [(s, v[2] if n == "id" else v[3])] if v else None
        if n in self.user and cls.startswith("controller_interface::"):
            self.ev_(s, n, tuple(call.args), self.snap(s))
            return [(s, ("sym", "result of " + n))]
        if n == "on_init" or n.startswith("on_") and n[3:] in CALLBACKS:
            self.ev_(s, "callback", n[3:], tuple(call.args), self.snap(s))
            out = []
            for r in RESULTS:
                s2 = s.copy()
                self.ev_(s2, "result", n[3:], r)
                out.append((s2, ("enum", "rclcpp_lifecycle::node_interfaces::LifecycleNodeInterface::CallbackReturn::" + r, self.cr[r])))
            return out
        if node and n in ("configure", "shutdown"):
            self.ev_(s, "node", n, s.tags["lc"], self.snap(s))
            out = []
            for e in (self.ends if n == "configure" else (FINAL,)):
                s2 = s.copy()
                s2.tags["lc"] = e
                out.append((s2, self.node_state(s2)))
            return out
        if node and n == "get_parameter" and call.args and T.isc(call.args[0]):
            if call.args[0][1] in self.params:
                return [(s, ("param", call.args[0][1]))]
        if n in ("as_int", "as_bool", "as_double", "as_string") and call.recvv is not None:
            for x in T.subterms(call.recvv):
                if x[0] == "param":
                    return [(s, T.c(self.params[x[1]]))]
        if "AsyncFunctionHandler" in cls and "Params" not in cls.split("<")[0]:
            if n == "is_running":
                return [(s, T.c(s.tags["running"]))]
            if n in ("stop_thread", "start_thread"):
                s.tags["running"] = n[:5] == "start"
            self.ev_(s, "async", n, tuple(call.args), self.read(s, ("fld", IMPL, "skip_async_triggers_")))
            if n == "trigger_async_callback":
                return [(s, ("rec", "std::pair", (("first", ("pairof", 0)), ("second", ("pairof", 1)))))]
            return [(s, T.c(None))]
        if n == "initialize" and "AsyncFunctionHandlerParams" in cls and call.recv is not None and self.policy is not None:
            self.wr(s, ("fld", call.recv, "scheduling_policy"), self.policy)
            return [(s, T.c(None))]
        if n == "make_unique" and "AsyncFunctionHandler" in repr(call.node.get("t", "")):
            self.ev_(s, "async", "make")
            s.tags["running"] = False
            return [(s, ("sym", "handler"))]
        if n in ("enableAll", "disableAll"):
            self.ev_(s, "introspection", n == "enableAll")
            return [(s, T.c(None))]
        if n in ("stub_register", "stub_unregister", "get_logger", "get_clock"):
            return [(s, ("sym", n))]
        if n == "ok" and fq == "rclcpp::ok":
            return [(s, T.TRUE)]
        return super().on_call(s, call)


def start(I, lc, handler=None, running=False, is_async=False, skip=False):
    need_fields(I.db, BASE[:-2], "impl_", "command_interfaces_", "state_interfaces_")
    need_fields(I.db, BASE + "ControllerInterfaceBaseImpl", "node_", "async_handler_", "is_async_", "skip_async_triggers_", "lifecycle_id_", "ctrl_itf_params_")
    s = State()
    s.tags["lc"], s.tags["running"] = lc, running
    w = lambda f, v: I.wr(s, ("fld", IMPL, f), v)
    w("node_", ("sym", "node"))
    w("async_handler_", ("sym", "handler") if handler else T.c(None))
    w("is_async_", T.c(is_async))
    w("skip_async_triggers_", T.c(skip))
    w("lifecycle_id_", T.c(99))
    for f in ("command", "state"):
        I.wr(s, ("fld", ("this",), f + "_interfaces_"), ("vec", (("sym", f"held {f} interface"),)))
    s.tags["ev"] = ()
    return s


def interp(ctx, **kw):
    I = BaseInterp(ctx.db)
    I.cr = CR
    for k, v in kw.items():
        setattr(I, k, v)
    return I


def events(s):
    return s.tags.get("ev", ())
