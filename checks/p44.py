"""P44 the spawner and unspawner work in order, stop at the first failure and clean up."""
import itertools
import os
from engine import db as DBM
from engine import pyx
from engine.pyx import Opaque, Obj, Cls, Py, paths

SVC = "controller_manager.controller_manager_services."
SP = "controller_manager.spawner"
SF = "controller_manager/controller_manager/spawner.py"
UP = "controller_manager.unspawner"
UF = "controller_manager/controller_manager/unspawner.py"
HP = "controller_manager.hardware_spawner"
HF = "controller_manager/controller_manager/hardware_spawner.py"
KINDS = {"set_controller_parameters": "set", "set_controller_parameters_from_param_files": "params", "load_controller": "load", "configure_controller": "configure",
         "switch_controllers": "switch", "unload_controller": "unload", "set_hardware_component_state": "state"}
UNEXPECTED = ("cleanup_controller", "reload_controller_libraries", "service_caller")


class PyN(Py):
    """a process with an argument list, a node and a lock"""
    locked = False

    def attr(self, o, name, n=None):
        if name == "argv" and not isinstance(o, Obj):
            return ["program", "name"]
        if name == "is_locked" and isinstance(o, Opaque) and o.name == "LOCK":
            return self.locked
        return Py.attr(self, o, name, n)


def main_of(I, mod):
    m = I.module(mod)
    f = I.mod_get(m, "main") if m is not None else None
    if not isinstance(f, pyx.Func):
        raise DBM.AnchorMissing(mod + ".main")
    return f


def fails(I, label, may=(), quiet=False):
    """the outcome of a request: accepted, refused, the service is missing, interrupted"""
    kinds = ["ok"] + list(may)
    r = kinds[I.choose(len(kinds), label)] if len(kinds) > 1 else "ok"
    return r


def make_hook(mod, ns, given, infos, faults, lockf, ros_files=False):
    def hook(I, nm, f, args, kw, nd):
        last = nm.split(".")[-1].split("#")[0]
        if nm.startswith(mod + ".parse_") and isinstance(f, pyx.Func):
            return [Obj("args", **given), [dict(c) for c in infos]]
        if last == "remove_ros_args":
            return ["program", "name"]
        if last in ("parse_args", "parse_known_args"):
            o = Obj("args", **given)
            return o if last == "parse_args" else [o, []]
        if last in ("ArgumentParser", "add_argument", "add_mutually_exclusive_group"):
            return Opaque("parser", True)
        if nm == "rclpy.init":
            I.ev.append(("init",))
            return None
        if nm in ("rclpy.shutdown", "rclpy.try_shutdown"):
            I.ev.append(("shutdown",))
            return None
        if last == "isfile" or last == "exists":
            return True
        if nm == "os.path.join" and all(isinstance(a, str) for a in args):
            return os.path.join(*args)
        if last == "expanduser":
            return "HOME"
        if last == "FileLock":
            return Opaque("LOCK", True)
        if nm.startswith("LOCK.acquire"):
            r = fails(I, "acquire", ("timeout", "interrupt") if lockf else ())
            I.ev.append(("acquire", r))
            if r == "timeout":
                raise pyx.Raise("Timeout", Obj("Timeout"))
            if r == "interrupt":
                raise pyx.Raise("KeyboardInterrupt", Obj("KeyboardInterrupt"))
            I.locked = True
            return None
        if nm.startswith("LOCK.release"):
            I.ev.append(("release", I.locked))
            I.locked = False
            return None
        if nm.endswith("node.Node") or nm == "rclpy.create_node" or last == "Node":
            I.ev.append(("node",))
            o = Opaque("NODE", True)
            I.facts["NODE"] = o
            return o
        if nm.startswith("NODE.destroy_node"):
            I.ev.append(("destroy",))
            return None
        if last == "get_namespace":
            return ns
        if last == "sleep":
            if not any(e[0] == "node" for e in I.ev):
                return None
            I.ev.append(("wait",))
            raise pyx.Raise("KeyboardInterrupt", Obj("KeyboardInterrupt"))
        if nm.startswith("signal."):
            return None
        if nm.startswith(SVC) and isinstance(f, pyx.Func):
            h = nm[len(SVC):]
            if h in KINDS or h in ("list_controllers", "list_hardware_components") or h in UNEXPECTED:
                b = I.bind(f, args, kw)
                r = fails(I, h, faults if h in KINDS else [x for x in faults if x != "refused"])
                I.ev.append((KINDS.get(h, h), b, r, I.locked, b.get("node")))
                if r == "missing":
                    raise pyx.Raise("ServiceNotFoundError", I.call(I.mod_get(I.module(SVC[:-1]), "ServiceNotFoundError"), ["no service"], {}, None))
                if r == "interrupt":
                    raise pyx.Raise("KeyboardInterrupt", Obj("KeyboardInterrupt"))
                if h == "list_controllers":
                    cs = [Obj("ControllerState", name="other", state="active")]
                    for c in infos:
                        k = ("loaded", c["name"])
                        if k not in I.facts:
                            I.facts[k] = I.choose(2, f"{c['name']} loaded") == 1
                        if I.facts[k]:
                            cs.append(Obj("ControllerState", name=c["name"], state="unconfigured"))
                    return Obj("Response", controller=cs)
                if h == "list_hardware_components":
                    cs = [Obj("Component", name="other")]
                    for c in infos:
                        k = ("loaded", c)
                        if k not in I.facts:
                            I.facts[k] = I.choose(2, f"{c} loaded") == 0
                        if I.facts[k]:
                            cs.append(Obj("Component", name=c))
                    return Obj("Response", component=cs)
                if h in ("set_controller_parameters", "set_controller_parameters_from_param_files"):
                    return r == "ok"
                return Obj("Response", ok=r == "ok", message="MESSAGE", state=b.get("lifecyle_state"))
        return NotImplemented
    return hook


def saw(ctx, I, kind, v):
    ctx.paths += 1
    for p, q in I.visited:
        ctx.fns.add(f"{os.path.relpath(p, DBM.REPO)}:{q}")
    if kind == "unknown":
        ctx.undecided("python", str(v)[:200])


def tell(I, kind, v):
    ev = []
    for e in I.ev:
        if e[0] == "switch":
            ev.append(f"switch -{e[1]['deactivate_controllers']} +{e[1]['activate_controllers']} {e[2]}")
        elif len(e) > 2:
            ev.append(f"{e[0]} {e[1].get('controller_name', e[1].get('component_name', ''))} {e[2]}")
        else:
            ev.append(" ".join(str(x) for x in e))
    return f"{', '.join(ev)[-300:]}; {kind} {v.typ if kind == 'raise' else v!r}"


REQ = ("set", "params", "load", "configure", "switch", "unload", "state") + UNEXPECTED


def cleanup(ctx, I, z, F, lock=True):
    ev = [e[0] for e in I.ev]
    if "init" in ev:
        ctx.check("shutdown" in ev, "the process shuts down its ROS context on every way out", F, z)
        if "shutdown" in ev:
            last = max(i for i, e in enumerate(I.ev) if e[0] == "shutdown")
            ctx.check(not any(e[0] in REQ for e in I.ev[last:]), "nothing is requested after the shutdown", F, z)
    if lock:
        ctx.check("node" not in ev or "destroy" in ev, "the node is destroyed on every way out", F, z)
        ctx.check(not I.locked, "the spawner lock is released on every way out", F, z)
        ctx.check(all(e[1] for e in I.ev if e[0] == "release"), "the spawner lock is released only while held", F, z)


def one(ctx, ns, infos, group, kill, faults, lockf):
    given = dict(controller_manager="cm", controller_manager_timeout=3.0, service_call_timeout=4.0, switch_timeout=5.0, switch_asap=group, activate_as_group=group, unload_on_kill=kill)
    consts, _, _ = pyx.srv_consts("SwitchController")
    cmname = "/cm" if ns == "/" else f"{ns}/cm"
    hook = make_hook(SP, ns, given, infos, faults, lockf)

    def make(ch):
        I = PyN(ch, hook)
        I.LOOP = 12
        return I
    n = 0
    opts = f"{[(c['name'], *[k for k in ('load_only', 'inactive') if c[k]]) for c in infos]}{' as group' if group else ''}{' unload on kill' if kill else ''}: "
    for I, kind, v in paths(make, lambda I: I.call(main_of(I, SP), [], {}, None), 6000):
        saw(ctx, I, kind, v)
        if kind in ("unknown", "cut"):
            if kind == "cut":
                ctx.undecided("spawner", f"loop not followed: {v}"[:200])
            continue
        n += 1
        z = opts + tell(I, kind, v)
        cleanup(ctx, I, z, SF)
        reqs = [(i, e) for i, e in enumerate(I.ev) if e[0] in REQ or e[0] == "list_controllers"]
        bad = next((i for i, e in enumerate(I.ev) if len(e) > 2 and e[2] != "ok"), None)
        wait = next((i for i, e in enumerate(I.ev) if e[0] == "wait"), None)
        intr = wait if wait is not None else next((i for i, e in enumerate(I.ev) if len(e) > 1 and "interrupt" in (e[1] if isinstance(e[1], str) else "", e[2] if len(e) > 2 else "")), None)
        if kind == "raise" and v.typ == "AttributeError" and any(e[4] is None for _, e in reqs):
            pass
        for _, e in reqs:
            ctx.check(e[4] is I.facts.get("NODE"), "requests are made with the spawner's node", SF, z)
            ctx.check(e[1].get("controller_manager_name") == cmname, "requests go to the chosen controller manager", SF, z + f" at {e[1].get('controller_manager_name')!r} in namespace {ns}")
        state = {}
        for i, e in reqs:
            after_intr = intr is not None and i > intr
            if e[0] in UNEXPECTED:
                ctx.check(False, "the spawner requests only its own steps", SF, z)
            if e[0] == "unload" or (e[0] == "switch" and e[1]["deactivate_controllers"]):
                ctx.check(after_intr, "controllers are deactivated and unloaded only after an interrupt", SF, z)
                ctx.check(kill, "controllers are unloaded only if asked for", SF, z)
            elif e[0] != "list_controllers":
                ctx.check(not after_intr, "nothing more is loaded, configured or activated after an interrupt", SF, z)
                ctx.check(e[3], "controllers are loaded, configured and activated with the spawner lock held", SF, z)
            if after_intr:
                continue
            nm = e[1].get("controller_name")
            info = next((c for c in infos if c["name"] == nm), None)
            st = state.setdefault(nm, [])
            if e[0] in ("set", "params", "load", "configure") and info is None:
                ctx.check(False, "only requested controllers are handled", SF, z)
                continue
            loaded = I.facts.get(("loaded", nm))
            if e[0] in ("set", "params", "load"):
                ctx.check(not loaded, "a controller that is already loaded is not loaded again", SF, z)
            if e[0] == "params":
                ctx.check(e[1]["parameter_files"] == info["param_files"], "a controller gets its own parameter files", SF, z)
                ctx.check("load" not in st, "parameters are set before loading", SF, z)
            if e[0] == "set":
                ctx.check("load" not in st, "parameters are set before loading", SF, z)
                ctx.check(e[1]["parameter_name"] == "node_options_args" and e[1]["parameter_value"] == ["--remap", "a:=b"], "a controller gets its own node options", SF, z + f": {e[1]['parameter_value']!r}")
            if e[0] == "load":
                ctx.check(("params" in st or not info["param_files"]) and ("set" in st or not info["controller_ros_args"]), "parameters are set before loading", SF, z)
                ctx.check("load" not in st, "a controller is loaded once", SF, z)
            if e[0] == "configure":
                ctx.check(bool(loaded) or "load" in st, "only loaded controllers are configured", SF, z)
                ctx.check(not info["load_only"], "load-only controllers are not configured", SF, z)
            if e[0] == "switch":
                act = e[1]["activate_controllers"]
                for a in act:
                    ai = next((c for c in infos if c["name"] == a), None)
                    ctx.check("configure" in state.get(a, []), "only configured controllers are activated", SF, z)
                    ctx.check(ai is not None and not ai["inactive"] and not ai["load_only"], "inactive and load-only controllers are not activated", SF, z)
                    state.setdefault(a, []).append("active")
                ctx.check(len(act) == 1 or group, "controllers are activated together only if asked for", SF, z)
                ctx.check(e[1]["strictness"] == consts["STRICT"] and e[1]["activate_asap"] == given["switch_asap"] and e[1]["timeout"] == given["switch_timeout"] and e[1]["call_timeout"] == given["service_call_timeout"],
                          "a switch is requested as the options say", SF, z + f": strictness {e[1]['strictness']}, asap {e[1]['activate_asap']}, timeouts {e[1]['timeout']}, {e[1]['call_timeout']}")
            st.append(e[0])
        todo = [c["name"] for c in infos if not c["inactive"] and not c["load_only"]]
        # the first failing step
        if bad is not None and I.ev[bad][2] in ("refused", "missing") and (intr is None or bad < intr):
            ctx.check(kind == "ret" and bool(v), "a failing step makes the spawner fail", SF, z)
            ctx.check(not any(i > bad for i, _ in reqs), "nothing more is requested after a failing step", SF, z)
        elif bad is None and intr is None and any(e == ("acquire", "ok") for e in I.ev):
            ctx.check(kind == "ret" and not v and not kill, "the spawner ends successfully once all is done", SF, z)
        if bad is None and any(e == ("acquire", "ok") for e in I.ev) or wait is not None:
            for c in infos:
                st = state.get(c["name"], [])
                ctx.check("load" in st or I.facts.get(("loaded", c["name"])), "every requested controller is loaded", SF, z)
                ctx.check(c["load_only"] or "configure" in st, "every controller that is not load-only is configured", SF, z)
                ctx.check(c["inactive"] or c["load_only"] or "active" in st, "every controller that is neither load-only nor inactive is activated", SF, z)
            if group:
                sw = [e for i, e in reqs if e[0] == "switch" and e[1]["activate_controllers"]]
                ctx.check(len(sw) == (1 if todo else 0) and all(e[1]["activate_controllers"] == todo for e in sw), "a group is activated at once", SF, z)
        if wait is not None:
            tail = [e for i, e in reqs if i > wait]
            off = [e for e in tail if e[0] == "switch"]
            ctx.check([e[1]["deactivate_controllers"] for e in off] == ([todo] if todo else []) and all(not e[1]["activate_controllers"] for e in off), "the controllers it activated are deactivated on an interrupt", SF, z)
            if off and off[0][2] == "ok":
                ctx.check([e[1]["controller_name"] for e in tail if e[0] == "unload"] == todo or any(e[2] in ("missing", "interrupt") for e in tail), "the controllers it activated are unloaded on an interrupt", SF, z)
            else:
                ctx.check(not any(e[0] == "unload" for e in tail), "controllers are unloaded only once deactivated", SF, z)
            k = [i for i, e in enumerate(tail) if e[0] == "unload"]
            s = [i for i, e in enumerate(tail) if e[0] == "switch"]
            ctx.check(not k or not s or max(s) < min(k), "controllers are unloaded only once deactivated", SF, z)
            if any(e[2] == "refused" for e in tail):
                ctx.check(kind == "raise" or bool(v), "a failing step makes the spawner fail", SF, z)
            elif all(e[2] == "ok" for e in tail):
                ctx.check(kind == "ret" and not v, "the spawner ends successfully once all is done", SF, z)
            rel = [i for i, e in enumerate(I.ev) if e[0] == "release"]
            ctx.check(bool(rel) and min(rel) < wait, "the lock is not held while waiting for the interrupt", SF, z)
        if lockf and not any(e == ("acquire", "ok") for e in I.ev):
            ctx.check(not reqs and "node" not in [e[0] for e in I.ev], "nothing is done without the spawner lock", SF, z)
            if intr is None:
                ctx.check(kind == "ret" and bool(v), "a spawner that cannot get its lock fails", SF, z)
    if not n:
        ctx.undecided("spawner", "no path understood")


def ctl(name, load_only=False, inactive=False, files=None, ros=None):
    return {"name": name, "param_files": files, "load_only": load_only, "inactive": inactive, "controller_ros_args": ros}


def unspawner(ctx):
    given = dict(controller_names=["a", "b"], controller_manager="/cm", switch_timeout=5.0)
    hook = make_hook(UP, "/", given, [], ("refused", "missing", "interrupt"), False)
    n = 0
    for I, kind, v in paths(lambda ch: PyN(ch, hook), lambda I: I.call(main_of(I, UP), [], {}, None), 3000):
        saw(ctx, I, kind, v)
        if kind in ("unknown", "cut"):
            continue
        n += 1
        z = "unspawner of a and b: " + tell(I, kind, v)
        cleanup(ctx, I, z, UF, False)
        reqs = [e for e in I.ev if e[0] in REQ]
        sw = [i for i, e in enumerate(reqs) if e[0] == "switch"]
        un = [i for i, e in enumerate(reqs) if e[0] == "unload"]
        ctx.check(all(e[0] in ("switch", "unload") for e in reqs), "the unspawner only deactivates and unloads", UF, z)
        ctx.check(len(sw) == 1 and reqs[sw[0]][1]["deactivate_controllers"] == ["a", "b"] and not reqs[sw[0]][1]["activate_controllers"], "the unspawner deactivates what it unloads", UF, z)
        ctx.check(not un or (sw and sw[0] < min(un)), "the unspawner deactivates what it unloads", UF, z)
        ctx.check([reqs[i][1]["controller_name"] for i in un] == ["a", "b"][:len(un)], "the unspawner unloads the given controllers", UF, z)
        ctx.check(all(e[1].get("controller_manager_name") == "/cm" for e in reqs), "requests go to the chosen controller manager", UF, z)
        if any(e[0] == "unload" and e[2] == "refused" for e in reqs) or any(e[2] == "missing" for e in reqs):
            ctx.check(kind == "ret" and bool(v), "a failing step makes the unspawner fail", UF, z)
        elif not any(e[2] == "interrupt" for e in reqs):
            ctx.check(kind == "ret" and not v and len(un) == 2, "the unspawner succeeds once all is unloaded", UF, z)
    if not n:
        ctx.undecided("unspawner", "no path understood")


def hardware(ctx):
    ids = {"activate": (3, "active"), "configure": (2, "inactive")}
    n = 0
    for ns in ("/", "/ns"):
        for what in ids:
            given = dict(hardware_component_names=["h1", "h2"], controller_manager="cm", controller_manager_timeout=3.0, activate=what == "activate", configure=what == "configure")
            inner = make_hook(HP, ns, given, ["h1", "h2"], ("refused", "missing", "interrupt"), False)

            def hook(I, nm, f, args, kw, nd):
                if nm.endswith(".State") and not args:
                    return Obj("State", **kw)
                return inner(I, nm, f, args, kw, nd)

            class PyH(PyN):
                def attr(self, o, name, n=None):
                    k = {"PRIMARY_STATE_UNKNOWN": 0, "PRIMARY_STATE_UNCONFIGURED": 1, "PRIMARY_STATE_INACTIVE": 2, "PRIMARY_STATE_ACTIVE": 3, "PRIMARY_STATE_FINALIZED": 4}
                    return k[name] if name in k else PyN.attr(self, o, name, n)
            for I, kind, v in paths(lambda ch: PyH(ch, hook), lambda I: I.call(main_of(I, HP), [], {}, None), 6000):
                saw(ctx, I, kind, v)
                if kind in ("unknown", "cut"):
                    continue
                n += 1
                z = f"hardware spawner, {what}: " + tell(I, kind, v)
                cleanup(ctx, I, z, HF, False)
                reqs = [e for e in I.ev if e[0] in REQ]
                for e in reqs:
                    if not ctx.check(e[0] == "state", "the hardware spawner only sets states", HF, z):
                        continue
                    s = e[1]["lifecyle_state"]
                    if isinstance(s, Obj):
                        ctx.check((s.attrs.get("id"), s.attrs.get("label")) == ids[what], "components are set to the state asked for", HF, z + f": {s.attrs}")
                    ctx.check(I.facts.get(("loaded", e[1]["component_name"])) is True, "only loaded components are set", HF, z)
                    ctx.check(e[1].get("controller_manager_name") == ("/cm" if ns == "/" else "/ns/cm"), "requests go to the chosen controller manager", HF, z)
                if not any(len(e) > 2 and e[2] in ("missing", "interrupt") for e in I.ev):
                    want = [h for h in ("h1", "h2") if I.facts.get(("loaded", h))]
                    ctx.check([e[1]["component_name"] for e in reqs] == want, "every loaded component is set", HF, z)
                if any(len(e) > 2 and e[2] == "missing" for e in I.ev):
                    ctx.check(kind == "ret" and bool(v), "a missing controller manager makes the hardware spawner fail", HF, z)
    if not n:
        ctx.undecided("hardware_spawner", "no path understood")


def run(ctx):
    ctx.rule("main of the spawner, unspawner and hardware spawner is interpreted from its syntax tree over all outcomes of every step (accepted, refused, service missing, interrupted; lock timeouts), "
             "for all kinds of requested controllers; the resulting histories of requests, lock and node operations are checked against the protocol")
    ctx.assumption("parse_* return the options and one entry per requested controller; parameter files exist; interrupts arrive while waiting or during a request")
    F = ("refused", "missing", "interrupt")
    kinds = [dict(), dict(inactive=True), dict(load_only=True), dict(files=["f1"], ros=["--remap a:=b"])]
    i, work = 0, []
    for x, y in itertools.product(kinds, kinds[:3] + [dict(files=["f2", "f3"], inactive=True)]):
        for group, kill in itertools.product((False, True), repeat=2):
            i += 1
            work.append((f"spawner{i}", one, (ctx, "/ns" if i % 2 else "/", [ctl("a", **x), ctl("b", **y)], group, kill, F, False)))
    for kill in (False, True):
        work.append((f"lock{kill}", one, (ctx, "/", [ctl("a")], False, kill, (), True)))
    ctx.pmap(work + [("unspawner", unspawner, (ctx,)), ("hardware", hardware, (ctx,))])
