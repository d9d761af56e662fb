"""P42 command-line verbs report failure and request what was asked."""
import ast
import itertools
import os
from engine import db as DBM
from engine import pyx
from engine.pyx import Opaque, Obj, Cls, Py, paths

SVC = "controller_manager.controller_manager_services."
VERBS = "ros2controlcli.verb."
DIR = "ros2controlcli/ros2controlcli/verb/"
CHANGING = ("configure_controller", "load_controller", "reload_controller_libraries", "set_hardware_component_state", "switch_controllers", "unload_controller",
            "cleanup_controller", "set_controller_parameters", "set_controller_parameters_from_param_files", "service_caller")
LISTING = ("list_controllers", "list_controller_types", "list_hardware_components", "list_hardware_interfaces")
PRIMARY = {"PRIMARY_STATE_UNKNOWN": 0, "PRIMARY_STATE_UNCONFIGURED": 1, "PRIMARY_STATE_INACTIVE": 2, "PRIMARY_STATE_ACTIVE": 3, "PRIMARY_STATE_FINALIZED": 4}


def verb_class(I, verb):
    m = I.module(VERBS + verb)
    if m is None:
        raise DBM.AnchorMissing(VERBS + verb)
    for n in m.tree.body if hasattr(m, "tree") else ast.parse(open(os.path.join(DBM.REPO, DIR, verb + ".py")).read()).body:
        if isinstance(n, ast.ClassDef) and any(isinstance(x, ast.FunctionDef) and x.name == "main" for x in n.body):
            return I.mod_get(m, n.name)
    raise DBM.AnchorMissing(VERBS + verb)


def options(verb):
    """(name, values, is a number) of every option the verb declares"""
    rec = []

    def hook(I, nm, f, args, kw, nd):
        if nm.split(".")[-1].split("#")[0] == "add_argument":
            rec.append((args, kw))
            return Opaque("arg", True)
        return NotImplemented

    def go(I):
        c = verb_class(I, verb)
        return I.call(I.attr(I.call(c, [], {}, None), "add_arguments"), [Opaque("parser", True), "cli"], {}, None)
    outs = paths(lambda ch: Py(ch, hook), go, 50)
    if len(outs) != 1 or outs[0][1] != "ret":
        raise pyx.Unknown(f"options of {verb}: {outs[0][1]} {outs[0][2]}"[:200])
    out = {}
    for args, kw in rec:
        names = [a for a in args if isinstance(a, str)]
        if not names:
            raise pyx.Unknown("option without a name")
        long = [a for a in names if a.startswith("--")]
        dest = kw.get("dest") or (long[0] if long else names[0]).lstrip("-").replace("-", "_")
        opt = names[0].startswith("-")
        text = f"ARG:{dest}"
        typ = getattr(kw.get("type"), "name", None)
        num = {"float": 7.25, "int": 7}.get(typ)
        one = num if num is not None else text
        act = kw.get("action")
        if kw.get("choices") is not None:
            vals = list(kw["choices"]) + ([kw.get("default")] if opt or kw.get("nargs") == "?" else [])
        elif act in ("store_true", "store_false"):
            vals = [act == "store_false", act == "store_true"]
        elif kw.get("nargs") in ("*", "+", "..."):
            vals = [kw.get("default", []), [one + "1", one + "2"] if isinstance(one, str) else [one]]
        elif kw.get("nargs") == "?" or isinstance(kw.get("nargs"), Opaque):
            vals = [kw.get("default"), one]
        elif opt:
            vals = [kw.get("default"), one]
        else:
            vals = [one]
        out.setdefault(dest, [])
        for v in vals:
            if v not in out[dest] and not isinstance(v, Opaque):
                out[dest].append(v)
    return out


def common(I, nm, f, args, kw):
    last = nm.split(".")[-1].split("#")[0]
    if nm.endswith(("lifecycle_msgs.msg.State", ".State")) and not args:
        return Obj("State", **kw)
    if nm in ("os.path.isabs",):
        return I.choose(2, "absolute path") == 0
    if nm in ("os.getcwd",):
        return "CWD"
    if nm == "os.path.join" and all(isinstance(a, str) for a in args):
        return os.path.join(*args)
    if nm == "os.path.exists":
        k = ("exists", args[0] if isinstance(args[0], str) else None)
        if k not in I.facts:
            I.facts[k] = I.choose(2, "exists") == 0
            I.ev.append(("exists", I.facts[k], None))
        return I.facts[k]
    if last == "print" and nm == "print":
        I.ev.append(("print", tuple(args), None))
        return None
    return NotImplemented


class PyV(Py):
    """with the primary lifecycle states"""
    def attr(self, o, name, n=None):
        if name in PRIMARY:
            return PRIMARY[name]
        return Py.attr(self, o, name, n)


def run_verb(verb, opts, listing=None):
    """all paths of the verb's main for all values of its options"""
    names = sorted(opts)
    for vals in itertools.product(*[opts[k] for k in names]):
        given = dict(zip(names, vals))

        def hook(I, nm, f, args, kw, nd):
            r = common(I, nm, f, args, kw)
            if r is not NotImplemented:
                return r
            if nm.startswith(SVC) and isinstance(f, pyx.Func):
                h = nm[len(SVC):]
                if h in CHANGING:
                    ok = I.choose(2, h) == 0
                    I.ev.append((h, I.bind(f, args, kw), ok))
                    if h in ("set_controller_parameters", "set_controller_parameters_from_param_files"):
                        return ok
                    return Obj("Response", ok=ok, message="MESSAGE", state=Obj("State", id=3, label="active"), successful=ok)
                if h in LISTING:
                    b = I.bind(f, args, kw)
                    I.ev.append(("list", b, h))
                    if listing:
                        return listing(I, h)
            return NotImplemented

        def go(I):
            c = verb_class(I, verb)
            a = Obj("args", **{k: (list(v) if isinstance(v, list) else v) for k, v in given.items()})
            return I.call(I.attr(I.call(c, [], {}, None), "main"), [], {"args": a}, None)

        def make(ch):
            I = PyV(ch, hook)
            I.LOOP = 3
            return I
        for I, kind, v in paths(make, go, 3000):
            yield given, I, kind, v


def show(given, I, kind, v):
    g = {k: x for k, x in given.items() if k not in ("include_hidden_nodes", "argv", "ros_args", "spin_time", "use_sim_time", "no_daemon")}
    return f"options {g}, requests {[(e[0], 'accepted' if e[2] else 'refused') for e in I.ev if e[0] in CHANGING]}, {kind} {v.typ if kind == 'raise' else v!r}"[:330]


def saw(ctx, I, kind, v):
    ctx.paths += 1
    for p, q in I.visited:
        ctx.fns.add(f"{os.path.relpath(p, DBM.REPO)}:{q}")
    if kind == "unknown":
        ctx.undecided("python", str(v)[:200])


def known_controllers(I, h):
    """the requested controller, in any state, among others whose names are close to its own, or those only"""
    if h != "list_controllers":
        return Opaque("response")
    if "listing" not in I.facts:
        st = [None, "unconfigured", "inactive", "active", "finalized"][I.choose(5, "state")]
        I.facts["listing"] = st
        I.facts["others"] = ["active", "inactive", "unconfigured"][I.choose(3, "state of the others")]
    st, other = I.facts["listing"], I.facts["others"]
    me = "ARG:controller_name"
    mk = lambda n, s: Obj("ControllerState", name=n, state=s, type="t", claimed_interfaces=[])
    cs = [mk(n, other) for n in ("other", me + "_2", "ns/" + me)]
    if st:
        cs.append(mk(me, st))
    cs += [mk(n, other) for n in (me[:-1], me.upper(), me[4:], me + "2")]
    return Obj("Response", controller=cs)


def val(x):
    """comparable form of an argument"""
    if isinstance(x, Obj):
        return {k: val(v) for k, v in x.attrs.items()}
    return x


def want_unload(g, I):
    return [("unload_controller", {"controller_name": g["controller_name"]})]


def want_cleanup(g, I):
    return [("cleanup_controller", {"controller_name": g["controller_name"]})]


def want_reload(g, I):
    return [("reload_controller_libraries", {"force_kill": g["force_kill"]})]


def want_switch(g, I):
    c, _, _ = pyx.srv_consts("SwitchController")
    return [("switch_controllers", {"deactivate_controllers": g["deactivate"], "activate_controllers": g["activate"], "activate_asap": g["activate_asap"],
                                    "strictness": c["STRICT"] if g["strict"] else c["BEST_EFFORT"] if g["best_effort"] else None, "timeout": g["switch_timeout"]})]


def want_hw(g, I):
    s = g["state"]
    return [("set_hardware_component_state", {"component_name": g["hardware_component_name"], "lifecyle_state": {"id": PRIMARY[f"PRIMARY_STATE_{s.upper()}"], "label": s}})]


def want_state(g, I):
    st, to, n = I.facts.get("listing"), g["state"], g["controller_name"]
    if (st, to) == ("inactive", "unconfigured"):
        return [("cleanup_controller", {"controller_name": n})]
    if (st, to) == ("unconfigured", "inactive"):
        return [("configure_controller", {"controller_name": n})]
    if (st, to) == ("active", "inactive"):
        return [("switch_controllers", {"deactivate_controllers": [n], "activate_controllers": []})]
    if (st, to) == ("inactive", "active"):
        return [("switch_controllers", {"deactivate_controllers": [], "activate_controllers": [n]})]
    return None


def want_load(g, I):
    st, n, out = I.facts.get("listing"), g["controller_name"], []
    if not st:
        if g["param_file"]:
            if any(e[0] == "exists" and not e[1] for e in I.ev):
                return None
            out.append(("set_controller_parameters_from_param_files", {"controller_name": n}))
        out.append(("load_controller", {"controller_name": n}))
    if g["set_state"]:
        out.append(("configure_controller", {"controller_name": n}))
        if g["set_state"] == "active":
            out.append(("switch_controllers", {"deactivate_controllers": [], "activate_controllers": [n]}))
    return out


TABLE = {"unload_controller": want_unload, "cleanup_controller": want_cleanup, "reload_controller_libraries": want_reload, "switch_controllers": want_switch,
         "set_hardware_component_state": want_hw, "set_controller_state": want_state, "load_controller": want_load}


def changing(ctx, verb):
    where = DIR + verb + ".py"
    opts = options(verb)
    for k in ("include_hidden_nodes", "argv", "ros_args"):
        if k in opts:
            opts[k] = opts[k][:1]
    n = 0
    for g, I, kind, v in run_verb(verb, opts, known_controllers):
        if all(g.get(k) for k in ("strict", "best_effort")):
            continue
        saw(ctx, I, kind, v)
        z = f"{verb}: " + show(g, I, kind, v)
        if kind in ("unknown", "cut"):
            continue
        if kind == "raise":
            if v.typ in ("SystemExit",):
                continue
            ctx.undecided(verb, z)
            continue
        if isinstance(v, Opaque):
            ctx.undecided(verb, z)
            continue
        n += 1
        reqs = [e for e in I.ev if e[0] in CHANGING]
        refused = [e for e in reqs if not e[2]]
        ctx.check(not refused or bool(v), "a refused request makes the verb fail", where, z)
        ctx.check(not refused or reqs[-1] is refused[0], "nothing more is requested after a refusal", where, z)
        want = TABLE[verb](g, I)
        if want is None:
            ctx.check(bool(v), "what cannot be done makes the verb fail", where, z + f" with the controller {I.facts.get('listing') or 'not loaded'}")
            ctx.check(not reqs, "what cannot be done is not requested", where, z + f" with the controller {I.facts.get('listing') or 'not loaded'}")
            continue
        ctx.check([e[0] for e in reqs] == [w[0] for w in want][:len(reqs)] and (len(reqs) == len(want) or bool(refused)),
                  "the verb requests what it is for, in order", where, z + f", expected {[w[0] for w in want]}" + (f" with the controller {I.facts.get('listing') or 'not loaded'}" if "listing" in I.facts else ""))
        ctx.check(bool(refused) or not v, "accepted requests make the verb succeed", where, z)
        for e, w in zip(reqs, want):
            if e[0] != w[0]:
                break
            for a, x in w[1].items():
                if a not in e[1] or isinstance(e[1][a], Opaque):
                    ctx.undecided(verb, f"argument {a} of {e[0]}")
                elif a == "timeout" and isinstance(x, str):
                    ctx.check(not isinstance(e[1][a], str), "a duration given on the command line is a number", where, z + f": {a} is the text given")
                elif x is not None:
                    ctx.check(val(e[1][a]) == x, "options reach the request they are for", where, z + f": {a} is {val(e[1][a])!r}, not {x!r}")
            ctx.check(e[1].get("controller_manager_name") == g["controller_manager"], "requests go to the chosen controller manager", where, z + f": {e[1].get('controller_manager_name')!r}")
            if e[0] == "set_controller_parameters_from_param_files" and isinstance(e[1].get("parameter_files"), list):
                ctx.check(all(isinstance(x, str) and x.endswith(g["param_file"]) for x in e[1]["parameter_files"]) and e[1]["parameter_files"], "options reach the request they are for", where, z + f": files {e[1]['parameter_files']}")
        for e in I.ev:
            if e[0] == "list":
                ctx.check(e[1].get("controller_manager_name") == g["controller_manager"], "requests go to the chosen controller manager", where, z)
    if not n:
        ctx.undecided(verb, "no path understood")


def interfaces(I):
    out = []
    for i, (a, c) in enumerate(itertools.product((True, False), repeat=2)):
        out.append(Obj("HardwareInterface", name=f"joint{i}/position", is_available=a, is_claimed=c, data_type="double"))
    return out


def listings(I, h):
    """one of each"""
    st = lambda i, l: Obj("State", id=i, label=l)
    if h == "list_controllers":
        z = lambda **k: Obj("ControllerState", **{**dict(name="n", state="active", type="pkg/T", claimed_interfaces=["j/claimed"], required_command_interfaces=["j/cmd"], required_state_interfaces=["j/st"],
                                                         chain_connections=[], reference_interfaces=[], exported_state_interfaces=[], is_async=False, update_rate=100, is_chainable=False, is_chained=False), **k})
        return Obj("Response", controller=[z(name=f"ctl_{s}", state=s) for s in ("unconfigured", "inactive", "active", "finalized")])
    if h == "list_hardware_components":
        return Obj("Response", component=[Obj("Component", name=f"hw{i}", type="system", plugin_name="p", class_type="p", state=st(i, l), rw_rate=10, is_async=False, command_interfaces=interfaces(I), state_interfaces=interfaces(I))
                                          for i, l in ((1, "unconfigured"), (3, "active"))])
    if h == "list_hardware_interfaces":
        return Obj("Response", command_interfaces=interfaces(I), state_interfaces=interfaces(I))
    if h == "list_controller_types":
        return Obj("Response", types=["pkg/A", "pkg/B"], base_classes=["base/A", "base/B"])
    return Opaque("response")


def listing(ctx, verb):
    where = DIR + verb + ".py"
    opts = options(verb)
    for k in ("include_hidden_nodes", "argv", "ros_args"):
        if k in opts:
            opts[k] = opts[k][:1]
    n = 0
    for g, I, kind, v in run_verb(verb, opts, listings):
        saw(ctx, I, kind, v)
        z = f"{verb}: " + show(g, I, kind, v)
        reqs = [e for e in I.ev if e[0] in CHANGING]
        ctx.check(not reqs, "a listing changes nothing", where, z)
        for e in I.ev:
            if e[0] == "list":
                ctx.check(e[1].get("controller_manager_name") == g.get("controller_manager"), "requests go to the chosen controller manager", where, z)
        if kind != "ret" or isinstance(v, Opaque):
            continue
        n += 1
        ls = [l for e in I.ev if e[0] == "print" for a in e[1] if isinstance(a, str) for l in a.split("\n")]
        if verb.startswith("list_hardware"):
            sect = "state" if verb == "list_hardware_interfaces" else ""
            seen = 0
            for l in ls:
                if "command interfaces" in l:
                    sect = "command"
                if "state interfaces" in l:
                    sect = "state"
                for i, (a, c) in enumerate(itertools.product((True, False), repeat=2)):
                    if f"joint{i}/position" not in l:
                        continue
                    seen += 1
                    if "available]" in l:
                        ctx.check(("[available]" in l) == a, "interfaces are listed with their own availability", where, f"{verb}: an interface with availability {a} is listed as {l.strip()!r}")
                    else:
                        ctx.check(verb == "list_hardware_interfaces" and sect == "state", "interfaces are listed with their own availability", where, f"{verb}: {l.strip()!r}")
                    if "claimed]" in l and (a or verb != "list_hardware_interfaces"):
                        ctx.check(("[claimed]" in l) == c, "interfaces are listed with their own claim", where, f"{verb}: an interface with claim {c} is listed as {l.strip()!r}")
                    elif sect == "command" and "claimed]" not in l:
                        ctx.check(False, "interfaces are listed with their own claim", where, f"{verb}: no claim shown in {l.strip()!r}")
            if not seen:
                ctx.undecided(verb, "no listed interface recognised")
        if verb == "list_controllers":
            for s in ("unconfigured", "inactive", "active", "finalized"):
                mine = [l for l in ls if f"ctl_{s}" in l]
                ctx.check(bool(mine) and all(any(w == s for w in clean(l).split()) for l in mine), "controllers are listed with their own state", where, f"{verb}: {s} controller: {mine[:2]}")
        if verb == "list_controller_types":
            for t, b in (("pkg/A", "base/A"), ("pkg/B", "base/B")):
                ctx.check(any(t in l and b in l for l in ls), "controller types are listed with their own base class", where, f"{verb}: {t} not listed with {b}: {ls[:3]}")
    if not n:
        ctx.undecided(verb, "no path understood")


def clean(l):
    """without colours"""
    import re
    return re.sub("\033" + r"\[[0-9;]*m", " ", l)


def completers(ctx):
    """a completer offers exactly the names in its states"""
    where = "ros2controlcli/ros2controlcli/api/__init__.py"
    for cls, h, fld in (("LoadedControllerNameCompleter", "list_controllers", "controller"), ("LoadedHardwareComponentNameCompleter", "list_hardware_components", "component")):
        def hook(I, nm, f, args, kw, nd):
            if nm == SVC + h:
                I.ev.append(I.bind(f, args, kw))
                hw = fld == "component"
                return Obj("Response", **{fld: [Obj("X", name=f"n_{s}", state=Obj("State", label=s, id=0) if hw else s) for s in ("unconfigured", "inactive", "active", "finalized")]})
            return NotImplemented

        def go(I):
            m = I.module("ros2controlcli.api")
            c = I.mod_get(m, cls) if m is not None else None
            if not isinstance(c, Cls):
                raise pyx.Unknown(cls)
            o = I.call(c, [["active", "inactive"]], {}, None)
            return I.call(I.attr(o, "__call__"), ["", Obj("args", controller_manager="CM")], {}, None)
        for I, kind, v in paths(lambda ch: Py(ch, hook), go, 100):
            saw(ctx, I, kind, v)
            if kind != "ret" or not isinstance(v, list):
                ctx.undecided(cls, f"{kind} {v}"[:200])
                continue
            ctx.check(sorted(map(str, v)) == ["n_active", "n_inactive"], "a completer offers exactly the names in its states", where, f"{cls} for active, inactive: {v}")
            ctx.check(all(e["controller_manager_name"] == "CM" for e in I.ev), "requests go to the chosen controller manager", where, cls)


def run(ctx):
    ctx.rule("every verb's main is interpreted from its syntax tree, for every combination of the values its declared options can take, over all outcomes of every request, every state of the named controller and of the file system: "
             "a refusal is returned as failure and ends the requests; the requests are those of the verb, with the option of its meaning in each argument; listings show each item's own state and change nothing")
    ctx.assumption("ros2cli turns a verb's return value into the exit status (text or non-zero: failure) and gives it the node it asks for")
    d = os.path.join(DBM.REPO, DIR)
    verbs = sorted(f[:-3] for f in os.listdir(d) if f.endswith(".py") and f != "__init__.py")
    for v in verbs:
        ctx.section(v, changing if v in TABLE else listing, ctx, v)
    for v in TABLE:
        if v not in verbs:
            ctx.undecided(v, "verb not found")
    ctx.section("completers", completers, ctx)
