"""P43 Python service helpers call the right service with the right data."""
import os
import re
from engine import db as DBM
from engine import pyx
from engine.pyx import Opaque, Obj, Cls, Py, paths
from engine.util import walk

MOD = "controller_manager.controller_manager_services"
FILE = "controller_manager/controller_manager/controller_manager_services.py"

# helper: service type, request field of each argument after (node, controller manager)
HELPERS = {
    "configure_controller": ("ConfigureController", ("name",)),
    "list_controllers": ("ListControllers", ()),
    "list_controller_types": ("ListControllerTypes", ()),
    "list_hardware_components": ("ListHardwareComponents", ()),
    "list_hardware_interfaces": ("ListHardwareInterfaces", ()),
    "load_controller": ("LoadController", ("name",)),
    "reload_controller_libraries": ("ReloadControllerLibraries", ("force_kill",)),
    "set_hardware_component_state": ("SetHardwareComponentState", ("name", "target_state")),
    "switch_controllers": ("SwitchController", ("deactivate_controllers", "activate_controllers", "strictness", "activate_asap", "timeout")),
    "unload_controller": ("UnloadController", ("name",)),
    "cleanup_controller": ("CleanupController", ("name",)),
}
snake = lambda s: re.sub(r"(?<=[a-z])(?=[A-Z])", "_", s).lower()


def durations(I, name, f, args, kw, n):
    """rclpy durations keep the number of seconds they are made of"""
    if name == "rclpy.duration.Duration" or name.endswith(".Duration"):
        s = kw.get("seconds", args[0] if args else 0)
        if isinstance(s, str):
            raise pyx.Raise("TypeError", "a duration of text")
        return Obj("Duration", seconds=s, nanoseconds=kw.get("nanoseconds", 0))
    if isinstance(f, Opaque) and f.name.endswith("Duration.to_msg") and getattr(f, "owner", None) is not None:
        return f.owner
    return NotImplemented


class PyS(Py):
    """with rclpy durations"""
    def attr(self, o, name, n=None):
        v = Py.attr(self, o, name, n)
        if isinstance(o, Obj) and o.cls == "Duration" and name == "to_msg":
            v.owner = o
        return v

    def call(self, f, args, kw, n):
        r = durations(self, self.name_of(f), f, args, kw, n)
        return r if r is not NotImplemented else Py.call(self, f, args, kw, n)


def fn(I, name):
    m = I.module(MOD)
    v = I.mod_get(m, name) if m is not None else None
    if not isinstance(v, pyx.Func):
        raise DBM.AnchorMissing(f"{MOD}.{name}")
    return v


def saw(ctx, outs):
    for I, kind, v in outs:
        ctx.paths += 1
        for p, q in I.visited:
            ctx.fns.add(f"{os.path.relpath(p, DBM.REPO)}:{q}")
        if kind == "unknown":
            ctx.undecided("python", str(v)[:200])


def servers(ctx):
    """service name -> type, as registered by the controller manager"""
    out = {}
    for f in ctx.db.find("controller_manager::ControllerManager::init_services"):
        for n in walk(f.get("body") or {}):
            if n.get("k") == "call" and n.get("n") == "create_service":
                names = [x["v"] for a in n["args"][:1] for x in walk(a) if x.get("k") == "str"]
                types = re.findall(r"controller_manager_msgs::srv::(\w+)", " ".join(n.get("ta") or []) + " " + n.get("t", ""))
                cb = [x["n"] for a in n["args"][1:2] for x in walk(a) if x.get("k") == "ref" and x.get("dk") == "fn"]
                if len(names) == 1 and types:
                    out[names[0]] = (types[0].split("_Re")[0], cb[0] if cb else "")
    return out


def helpers(ctx):
    srv = servers(ctx)
    if not srv:
        ctx.undecided("services", "no registered services recognised")
    for nm, (typ, cb) in sorted(srv.items()):
        ctx.check(nm == "~/" + snake(typ), "a service is offered under the name of its type", "controller_manager/src/controller_manager.cpp", f"{nm} has type {typ}")
    for h, (typ, fields) in HELPERS.items():
        toks = {f: Opaque(f"arg:{f}") for f in fields}
        tout, cout, resp = Opaque("arg:service_timeout"), Opaque("arg:call_timeout"), Opaque("response")
        node = Opaque("node")

        def hook(I, name, f, args, kw, n):
            if name == MOD + ".service_caller":
                I.ev.append(I.bind(f, args, kw))
                return resp
            return NotImplemented

        def go(I):
            f = fn(I, h)
            kw = {"call_timeout": cout}
            ps = [a.arg for a in f.node.args.args]
            if "service_timeout" in ps:
                kw["service_timeout"] = tout
            return I.call(f, [node, "CM"] + [toks[x] for x in fields], kw, None)
        outs = paths(lambda ch: PyS(ch, hook), go)
        saw(ctx, outs)
        for I, kind, v in outs:
            if kind == "unknown" or kind == "cut":
                continue
            z = f"{h}: "
            if kind == "raise":
                ctx.undecided(h, f"raises {v.typ} {v.val}")
                continue
            if not ctx.check(len(I.ev) == 1, "a helper makes one service call", FILE, z + f"{len(I.ev)} calls"):
                continue
            e = I.ev[0]
            ctx.check(e["node"] is node, "a helper makes one service call", FILE, z + "with another node")
            ctx.check(isinstance(e["service_type"], Cls) and e["service_type"].name == typ, "a helper calls the service of its name with that service's type", FILE, z + f"type {e['service_type']}")
            sn = e["service_name"]
            if isinstance(sn, str):
                ctx.check(sn == "CM/" + snake(typ), "a helper calls the service of its name with that service's type", FILE, z + f"service {sn}")
                if srv and sn.startswith("CM/"):
                    off = srv.get("~/" + sn[3:])
                    ctx.check(off is not None and off[0] == typ, "a helper calls a service the manager offers", FILE, z + f"{sn}: offered {off}")
            else:
                ctx.undecided(h, f"service name {sn!r}")
            rq = e["request"]
            if not isinstance(rq, Obj):
                ctx.undecided(h, f"request {rq!r}")
                continue
            ctx.check(rq.cls.name == typ + ".Request", "a helper sends a request of its service", FILE, z + f"request {rq.cls.name}")
            _, want, _ = pyx.srv_consts(typ)
            for f in want or []:
                got = rq.attrs.get(f)
                if isinstance(got, Obj) and got.cls == "Duration":
                    got = got.attrs["seconds"]
                ctx.check(f in toks and got is toks[f], "every argument is passed in the request field of its meaning", FILE, z + f"{f} = {got!r}")
            extra = [f for f in rq.attrs if want is not None and f not in want]
            ctx.check(not extra, "every argument is passed in the request field of its meaning", FILE, z + f"unknown fields {extra}")
            ctx.check(v is resp, "a helper returns the service's answer", FILE, z + f"returns {v!r}")
            ctx.check(e["call_timeout"] is cout, "timeouts are passed on", FILE, z + f"call timeout {e['call_timeout']!r}")
            if "service_timeout" in [a.arg for a in fn(I, h).node.args.args]:
                ctx.check(e["service_timeout"] is tout, "timeouts are passed on", FILE, z + f"service timeout {e['service_timeout']!r}")


def caller(ctx):
    """the call itself: waiting, bounded attempts, the answer"""
    n = 0
    for ns, name, want in (("/", "cm/load", "/cm/load"), ("/ns", "cm/load", "/ns/cm/load"), ("/ns", "/cm/load", "/cm/load")):
        for tmo in (0.0, 2.0):
            for att in (1, 3):
                node, req, typ = Opaque("node"), Opaque("request"), Cls("Type")

                def hook(I, nm, f, args, kw, nd):
                    last = nm.split(".")[-1].split("#")[0]
                    if last == "get_namespace":
                        return ns
                    if last == "get_logger":
                        return Opaque("logger")
                    if last == "create_client":
                        I.ev.append(("client", args[0] if args else None, args[1] if len(args) > 1 else None))
                        return Opaque("client", True)
                    if last == "service_is_ready":
                        b = I.choose(2, "ready") == 0
                        I.ev.append(("ready", b))
                        return b
                    if last == "wait_for_service":
                        b = I.choose(2, "found") == 0
                        I.ev.append(("wait", b, args[0] if args else kw.get("timeout_sec")))
                        return b
                    if last == "call_async":
                        I.n += 1
                        fu = Opaque(f"future{I.n}")
                        fu.kind = "future"
                        I.ev.append(("call", args[0] if args else None, fu))
                        return fu
                    if last == "spin_until_future_complete":
                        I.ev.append(("spin", args[1] if len(args) > 1 else None, kw.get("timeout_sec", args[3] if len(args) > 3 else None)))
                        return None
                    if last == "result" and isinstance(f, Opaque) and f.name.startswith("future"):
                        k = f.name.split(".")[0]
                        if ("res", k) not in I.facts:
                            I.facts[("res", k)] = None if I.choose(2, "answered") else Opaque("answer:" + k, True)
                        return I.facts[("res", k)]
                    return NotImplemented
                outs = paths(lambda ch: bounded(Py(ch, hook)), lambda I: I.call(fn(I, "service_caller"), [node, name, typ, req], {"service_timeout": tmo, "call_timeout": 7.0, "max_attempts": att}, None), 4000)
                saw(ctx, outs)
                for I, kind, v in outs:
                    if kind in ("cut", "unknown"):
                        continue
                    n += 1
                    calls = [e for e in I.ev if e[0] == "call"]
                    cl = [e for e in I.ev if e[0] == "client"]
                    z = f"namespace {ns}, service {name}, timeout {tmo}, {att} attempts: {[e[0] if e[0] != 'ready' else e for e in I.ev]}, {kind} {v.typ if kind == 'raise' else v!r}"
                    for e in cl:
                        if isinstance(e[2], str):
                            ctx.check(e[2] == want, "relative services are looked up in the node's namespace", FILE, f"namespace {ns}, service {name}: {e[2]}")
                        else:
                            ctx.undecided("service_caller", f"service name {e[2]!r}")
                        ctx.check(e[1] is typ, "a helper calls the service of its name with that service's type", FILE, z)
                    for e in calls:
                        ctx.check(e[1] is req, "the given request is sent", FILE, z)
                    for e in [e for e in I.ev if e[0] == "spin"]:
                        ctx.check(e[2] == 7.0, "waiting for an answer is bounded by the call timeout", FILE, z + f" waits {e[2]}")
                    ctx.check(len(calls) <= att, "the number of attempts is bounded", FILE, z)
                    notready = not any(e == ("ready", True) or e[:2] == ("wait", True) for e in I.ev)
                    if calls:
                        ctx.check(not notready, "no request is sent before the service is there", FILE, z)
                    if kind == "ret":
                        ok = isinstance(v, Opaque) and v.name.startswith("answer:") and calls and v.name == "answer:" + calls[-1][2].name
                        ctx.check(bool(ok), "a returned answer is the service's, an unanswered call raises", FILE, z)
                    elif v.typ == "ServiceNotFoundError":
                        ctx.check(tmo > 0 and any(e[:2] == ("wait", False) for e in I.ev) and not calls, "a missing service raises only after its timeout", FILE, z)
                    elif v.typ == "RuntimeError":
                        ctx.check(len(calls) == att and all(I.facts.get(("res", e[2].name), 1) is None for e in calls), "a call fails only once every attempt stayed unanswered", FILE, z)
                    else:
                        ctx.undecided("service_caller", f"raises {v.typ}")
                if tmo:
                    ctx.check(not outs or any(k == "raise" and v.typ == "ServiceNotFoundError" for _, k, v in outs) or all(k in ("cut", "unknown") for _, k, v in outs),
                              "a missing service raises after its timeout", FILE, f"timeout {tmo}: no path raises")
                ctx.check(any(k == "raise" and v.typ == "RuntimeError" for _, k, v in outs) or all(k in ("cut", "unknown") for _, k, v in outs), "an unanswered call raises", FILE, f"{att} attempts: no path raises")
    if not n:
        ctx.undecided("service_caller", "no path understood")


def bounded(I):
    I.LOOP = 4
    return I


def clients(ctx):
    """one client per node and service"""
    made = []

    def hook(I, nm, f, args, kw, nd):
        if nm.split(".")[-1] == "create_client":
            I.n += 1
            c = Opaque(f"client{I.n}", True)
            I.ev.append(c)
            return c
        return NotImplemented

    def go(I):
        m = I.module(MOD)
        c = I.mod_get(m, "SingletonServiceCaller")
        if not isinstance(c, Cls):
            raise pyx.Unknown("SingletonServiceCaller")
        a, b, t, u = Opaque("a", True), Opaque("b", True), Cls("T"), Cls("U")
        return [I.call(c, x, {}, None) for x in ([a, t, "/s"], [a, t, "/s"], [a, u, "/r"], [b, t, "/s"])]
    for I, kind, v in paths(lambda ch: Py(ch, hook), go):
        if kind == "raise" and v.typ == "KeyError":
            ctx.check(False, "a client is used only for its own node and service", FILE, f"asking for clients of two nodes and two services: {v.typ}")
            continue
        if kind != "ret" or not all(isinstance(x, Opaque) and x in I.ev for x in v):
            ctx.undecided("clients", f"{kind} {v}"[:200])
            continue
        ctx.check(v[0] is v[1], "a client is created once per node and service", FILE, "the same service twice: two clients")
        ctx.check(v[2] is not v[0] and v[3] is not v[0] and v[3] is not v[2], "a client is used only for its own node and service", FILE, f"{v}")


def setting(ctx):
    """parameters of controllers"""
    for ok in (True, False):
        result = Obj("Result", successful=ok)

        def hook(I, nm, f, args, kw, nd):
            if nm == MOD + ".service_caller":
                I.ev.append(I.bind(f, args, kw))
                return Obj("Response", results=[result])
            if nm.split(".")[-1] == "get_parameter_value":
                return Obj("Value", of=kw.get("string_value", args[0] if args else None))
            if nm.endswith(".Parameter") or nm.endswith(".Request"):
                return Obj(nm.split(".")[-1], **kw)
            return NotImplemented
        outs = paths(lambda ch: Py(ch, hook), lambda I: I.call(fn(I, "set_controller_parameters"), [Opaque("node"), "CM", "ctl", "type", "pkg/Type"], {}, None))
        saw(ctx, outs)
        for I, kind, v in outs:
            z = f"setting type of ctl, accepted {ok}: {kind} {v.typ if kind == 'raise' else v!r}"
            if kind != "ret":
                ctx.undecided("set_controller_parameters", z)
                continue
            ctx.check(bool(v) == ok and isinstance(v, bool), "a parameter is reported as set exactly if the manager accepted it", FILE, z)
            e = I.ev[0] if I.ev else None
            ps = e["request"].attrs.get("parameters") if e and isinstance(e["request"], Obj) else None
            if len(I.ev) != 1 or not isinstance(ps, list) or len(ps) != 1 or not isinstance(ps[0], Obj):
                ctx.undecided("set_controller_parameters", f"request {ps!r}")
                continue
            val = ps[0].attrs.get("value")
            ctx.check(e["service_name"] == "CM/set_parameters" and ps[0].attrs.get("name") == "ctl.type" and isinstance(val, Obj) and val.attrs.get("of") == "pkg/Type",
                      "a controller's parameter is set under the controller's name", FILE, f"{e['service_name']}: {ps[0]} {val}")


def from_files(ctx):
    """all parameters found for a controller are set; a refused one is reported"""
    n = 0

    def hook(I, nm, f, args, kw, nd):
        if nm == MOD + ".set_controller_parameters":
            b = I.bind(f, args, kw)
            ok = I.choose(2, "accepted") == 0
            I.ev.append(("set", b["controller_name"], b["parameter_name"], b["parameter_value"], ok))
            return ok
        if nm == MOD + ".get_params_files_with_controller_parameters":
            I.ev.append(("files", I.bind(f, args, kw)))
            return ["f1", "f2"] if I.choose(2, "files") == 0 else []
        if nm == MOD + ".get_parameter_from_param_files":
            b = I.bind(f, args, kw)
            v = f"value of {b['parameter_name']}" if I.choose(2, "found") == 0 else None
            I.ev.append(("get", b["parameter_name"], v, b["parameter_files"], b["controller_name"]))
            return v
        if nm.split(".")[-1] == "get_namespace":
            return "/node_ns"
        return NotImplemented
    for ns in (None, "/given"):
        outs = paths(lambda ch: Py(ch, hook), lambda I: I.call(fn(I, "set_controller_parameters_from_param_files"), [Opaque("node"), "CM", "ctl", ["f0", "f1", "f2"]], {"namespace": ns}, None))
        saw(ctx, outs)
        for I, kind, v in outs:
            if kind != "ret":
                ctx.undecided("set_controller_parameters_from_param_files", f"{kind} {v}"[:200])
                continue
            sets = [e for e in I.ev if e[0] == "set"]
            files = [e for e in I.ev if e[0] == "files"]
            gets = {e[1]: e[2] for e in I.ev if e[0] == "get"}
            z = f"settings {[(e[2], 'accepted' if e[4] else 'refused') for e in sets]}, returns {v}"
            if not files:
                ctx.undecided("set_controller_parameters_from_param_files", z)
                continue
            n += 1
            ctx.check(files[0][1]["namespace"] == (ns or "/node_ns"), "parameters are looked up in the controller's namespace", FILE, z + f" namespace {files[0][1]['namespace']}")
            refused = [e for e in sets if not e[4]]
            ctx.check(bool(v) == (not refused), "a refused parameter is reported", FILE, z)
            ctx.check(not refused or sets[-1] is refused[0], "nothing more is set after a refused parameter", FILE, z)
            ctx.check(all(e[1] == "ctl" for e in sets), "a controller's parameter is set under the controller's name", FILE, z)
            if not refused:
                exp = {}
                if any(e[2] == "params_file" for e in sets) or gets:
                    exp = {"params_file": ["f1", "f2"], **{k: x for k, x in gets.items() if x}}
                ctx.check({e[2]: e[3] for e in sets} == exp, "everything found for a controller is set", FILE, z + f" expected {exp}")
                if exp:
                    ctx.check({"type", "fallback_controllers"} <= set(gets), "type and fallback controllers are taken from the parameter files", FILE, z)
    if not n:
        ctx.undecided("set_controller_parameters_from_param_files", "no path understood")


RP = "ros__parameters"


def lookup(ctx):
    """which file entries belong to a controller"""
    body = {RP: {"type": "mine"}}
    styles = {
        "/": [({"ctl": body}, True), ({"/ctl": body}, True), ({"/**/ctl": body}, True), ({"/**": {"ctl": body}}, True), ({"/**": {"/ctl": body}}, True),
              ({"/**": body}, True), ({"other": body}, False), ({"/ns/ctl": body}, False), ({"/**": {"other": body}}, False)],
        "/ns": [({"/ns/ctl": body}, True), ({"/**/ctl": body}, True), ({"/**/ns/ctl": body}, True), ({"/**": {"ctl": body}}, True), ({"/**": {"/ns/ctl": body}}, True),
                ({"/**": body}, True), ({"ctl": body}, False), ({"/ctl": body}, False), ({"/other/ctl": body}, False), ({"other": body}, False)],
    }
    n = 0
    for ns, rows in styles.items():
        for content, mine in rows:
            docs = {"a": {"unrelated": {RP: {"type": "no"}}}, "b": content}

            def hook(I, nm, f, args, kw, nd):
                if nm == "open":
                    return Obj("file:" + str(args[0]))
                if nm.split(".")[-1] in ("safe_load", "load", "full_load"):
                    o = args[0]
                    return docs[o.cls[5:]] if isinstance(o, Obj) and isinstance(o.cls, str) and o.cls[5:] in docs else NotImplemented
                return NotImplemented
            for which in ("get_params_files_with_controller_parameters", "get_parameter_from_param_files"):
                files = ["a", "b", "b"] if which.startswith("get_params") else ["a", "b"]
                extra = [] if which.startswith("get_params") else ["type"]
                outs = paths(lambda ch: Py(ch, hook), lambda I: I.call(fn(I, which), [Opaque("node"), "ctl", ns, files] + extra, {}, None))
                saw(ctx, outs)
                for I, kind, v in outs:
                    z = f"{which}: namespace {ns}, file with {content}: {kind} {v.typ if kind == 'raise' else v!r}"
                    if kind != "ret" or isinstance(v, Opaque):
                        ctx.undecided(which, z[:220])
                        continue
                    n += 1
                    if extra:
                        ctx.check(v == ("mine" if mine else None), "a controller's parameters are taken from its own entries", FILE, z)
                    else:
                        ctx.check(v == (["b"] if mine else []), "a controller's parameter files are those with entries for it", FILE, z)
    if not n:
        ctx.undecided("parameter files", "no path understood")


def run(ctx):
    ctx.where = FILE
    ctx.rule("every helper is interpreted from its syntax tree with symbolic arguments: one call, to the service and type of its name (as registered by the manager), every request field of the .srv file filled from the argument of its meaning; "
             "the caller is interpreted over all outcomes of waiting and answering; parameter helpers over all outcomes of each setting and all forms of entries in a file")
    ctx.assumption("rclpy and yaml behave as documented")
    for f in (helpers, caller, clients, setting, from_files, lookup):
        ctx.section(f.__name__, f, ctx)
