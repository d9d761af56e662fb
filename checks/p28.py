"""P28 controller-manager services run one at a time and answer truthfully."""
import itertools
from engine import terms as T
from engine import cm as C
from engine import manage as M
from engine import msgs
from engine.cm import Ctl, UNCONF, INACTIVE, ACTIVE, FINAL, LABELS, events, strs
from engine.util import *

REQ, RESP = ("sym", "request"), ("sym", "response")
WHERE = "controller_manager/src/controller_manager.cpp"


def rfld(f):
    return ("fld", T.deref(RESP), f)


class Serve:
    """stubs for the operations behind the services; every operation records the locks held"""
    def __init__(self, ctx):
        self.ctx, self.held, self.ops = ctx, [], []

    def note(self, s, n):
        self.held.append((n, frozenset(m for m, _ in s.locks)))


def reads(I, s, v):
    """plain value of a term that may be a reference"""
    d = 0
    while v is not None and v[0] in ("loc", "tmp", "deref") and d < 4:
        w = I.read(s, v[1] if v[0] == "loc" else v)
        if w == v:
            return v
        v, d = w, d + 1
    return v


def run_srv(ctx, fname, ctls=(), req=None, hooks=(), stubs=None, resp=None, **kw):
    def setup(I, s):
        for k, v in (req or {}).items():
            I.wr(s, ("fld", T.deref(REQ), k), v)
        for k, v in (resp or {}).items():
            I.wr(s, ("fld", T.deref(RESP), k), v)
        base = I.default_value

        def default(t):
            return msgs.default(t) or base(t)
        I.default_value = default
        I.hooks = list(hooks) + list(I.hooks)
        I.stubs.update(stubs or {})
    I, outs = M.request(ctx, fname, list(ctls), {0: REQ, 1: RESP}, setup=setup, **kw)
    ctx.saw_interp(I, outs)
    return I, outs


SIMPLE = {          # callback: operation, request fields in the order of its parameters
    "load_controller_service_cb": ("load_controller", ("name",)),
    "configure_controller_service_cb": ("configure_controller", ("name",)),
    "unload_controller_service_cb": ("unload_controller", ("name",)),
    "cleanup_controller_service_cb": ("cleanup_controller", ("name",)),
    "switch_controller_service_cb": ("switch_controller_cb", ("activate_controllers", "deactivate_controllers", "strictness", "activate_asap", "timeout")),
}


def simple(ctx, held):
    for cb, (op, fields) in SIMPLE.items():
        rt = {}

        def stub(I, s, call):
            held.setdefault(cb, []).append(frozenset(m for m, _ in s.locks))
            out = []
            for good in (True, False):
                s2 = s.copy()
                s2.tags["ev"] = s2.tags.get("ev", ()) + (("answer", good),)
                if op == "load_controller":
                    out.append((s2, ("sym", "ctl loaded") if good else T.NULL))
                else:
                    out.append((s2, I.ret_enum("OK" if good else "ERROR")))
            return out
        req = {f: ("sym", f"requested {f}") for f in fields}
        I, outs = run_srv(ctx, cb, req=req, stubs={op: stub}, resp={"ok": ("sym", "unset"), "message": T.c("")})
        n = 0
        for kind, s, v in outs:
            if kind != "ret":
                ctx.undecided(cb, f"ends with {kind} {s.exc}")
                continue
            ev = events(s)
            calls = [e for e in ev if e[0] == "call" and e[1] == op]
            other = [e[1] for e in ev if e[0] == "call" and e[1] != op]
            ans = [e[1] for e in ev if e[0] == "answer"]
            ok = I.read(s, rfld("ok"))
            if ok[0] == "sym" and ok[1].startswith("ctl "):
                ok = T.TRUE
            z = f"{cb}: operation {op} {'succeeds' if ans == [True] else 'fails' if ans == [False] else ans}, reported {T.show(ok)}"
            if not calls and not n and ok == ("sym", "unset"):
                ctx.undecided(cb, "the operation was not recognised")
                continue
            n += 1
            ctx.check(len(calls) == 1, "a service performs its operation exactly once", WHERE, z + f": {len(calls)} times")
            if len(calls) != 1 or len(ans) != 1:
                continue
            a = [reads(I, s, x) for x in calls[0][2]]
            for i, f in enumerate(fields):
                if i < len(a):
                    got = a[i]
                    names = {y[1] for y in T.subterms(got) if y[0] == "sym" and str(y[1]).startswith("requested ")} if isinstance(got, tuple) else set()
                    if names:
                        ctx.check(names == {f"requested {f}"}, "the operation gets what was requested", WHERE, f"{cb}: argument {i} of {op} is taken from {sorted(names)} instead of {f}")
                    elif T.isc(got) and got[1] is not None:
                        ctx.check(False, "the operation gets what was requested", WHERE, f"{cb}: argument {i} of {op} is {T.show(got)} instead of the requested {f}")
                    else:
                        ctx.undecided(cb, f"argument {i} of {op}: {T.show(got)}"[:200])
            if T.isc(ok):
                ctx.check(ok[1] == ans[0], "the reported outcome is that of the operation", WHERE, z)
            else:
                ctx.undecided(cb, z[:250])
        if not n:
            ctx.undecided(cb, "no path understood")


def reload(ctx, held):
    """libraries are reloaded only once every controller is stopped and unloaded"""
    cb = "reload_controller_libraries_service_cb"
    n = 0
    for states in ((), (INACTIVE,), (ACTIVE,), (ACTIVE, INACTIVE), (UNCONF, ACTIVE), (ACTIVE, ACTIVE)):
        for force in (False, True):
            ctls = [Ctl(f"c{i}", st) for i, st in enumerate(states)]

            def hook(I, s, call):
                nm = call.name
                if nm in ("switch_controller", "unload_controller"):
                    held.setdefault(cb, []).append(frozenset(m for m, _ in s.locks))
                    a = tuple(reads(I, s, x) for x in call.args)
                    out = []
                    for good in (True, False):
                        s2 = s.copy()
                        s2.tags["ev"] = s2.tags.get("ev", ()) + (("op", nm, a, good),)
                        if good and nm == "unload_controller" and T.isc(a[0]):
                            L = I.list_of(s2)
                            cur = I.read(s2, L)
                            if cur[0] == "vec":
                                keep = tuple(x for x in cur[1] if T.field(T.field(x, "info"), "name") != a[0])
                                I.wr(s2, L, ("vec", keep))
                        out.append((s2, I.ret_enum("OK" if good else "ERROR")))
                    return out
                if nm == "make_shared" and "ClassLoader" in repr(call.node.get("t", "")):
                    s.tags["ev"] = s.tags.get("ev", ()) + (("loader", "Chainable" in repr(call.node.get("t", ""))),)
                    return [(s, ("sym", "new loader"))]
                return None
            I, outs = run_srv(ctx, cb, ctls, {"force_kill": T.c(force)}, hooks=[hook], resp={"ok": ("sym", "unset")})
            for kind, s, v in outs:
                if kind != "ret":
                    ctx.undecided(cb, f"ends with {kind} {s.exc}")
                    continue
                ev = events(s)
                ops = [e for e in ev if e[0] == "op"]
                loads = [i for i, e in enumerate(ev) if e[0] == "loader"]
                ok = I.read(s, rfld("ok"))
                active = [c.name for c in ctls if c.state == ACTIVE]
                z = f"states {[LABELS[c.state] for c in ctls]}, force_kill={force}, operations {[(e[1], e[3]) for e in ops]}, {len(loads)} loaders recreated, reported {T.show(ok)}"
                if not T.isc(ok):
                    ctx.undecided(cb, z[:250])
                    continue
                n += 1
                if active and not force:
                    ctx.check(not ops and not loads and ok[1] is False, "libraries are not reloaded under active controllers unless that is forced", WHERE, z)
                    continue
                bad = [e for e in ops if not e[3]]
                if bad:
                    ctx.check(not loads and ok[1] is False, "libraries are not reloaded when stopping or unloading a controller failed", WHERE, z)
                    continue
                first = loads[0] if loads else len(ev)
                done = [e for e in ev[:first] if e[0] == "op" and e[3]]
                sw = [e for e in done if e[1] == "switch_controller"]
                un = [e[2][0][1] for e in done if e[1] == "unload_controller" and T.isc(e[2][0])]
                if len(un) < len([e for e in done if e[1] == "unload_controller"]):
                    ctx.undecided(cb, z[:250])
                    continue
                ctx.check(sorted(un) == sorted(c.name for c in ctls), "every controller is unloaded, once, before libraries are reloaded", WHERE, z + f": unloaded {un}")
                if active:
                    at = [i for i, e in enumerate(done) if e[1] == "switch_controller"]
                    ctx.check(len(sw) >= 1 and at[0] == 0, "active controllers are stopped before they are unloaded", WHERE, z)
                for e in sw:
                    a, d = e[2][0], e[2][1]
                    if a[0] == "vec" and d[0] == "vec":
                        ctx.check(a == ("vec", ()), "stopping the controllers starts none", WHERE, z)
                        if active:
                            ctx.check(sorted(x[1] for x in d[1] if T.isc(x)) == sorted(active), "all active controllers, and only those, are stopped", WHERE, z + f": deactivated {T.show(d)}")
                kinds = sorted(e[1] for e in ev if e[0] == "loader")
                if loads:
                    ctx.check(kinds == [False, True], "both kinds of controller libraries are reloaded", WHERE, z)
                    ctx.check(ok[1] is True, "a completed reload is reported as such", WHERE, z)
                else:
                    ctx.check(ok[1] is False, "a reload that did not happen is not reported as done", WHERE, z)
    if not n:
        ctx.undecided(cb, "no path understood")


def component(ctx, held):
    """set_hardware_component_state"""
    cb = "set_hardware_component_state_srv_cb"
    n = 0
    HC = "hardware_interface::HardwareComponentInfo"
    for known in (True, False):
        for label in ("", "active"):
            def info(st):
                return ("mapset", ("vec", ()), T.c("hw"), ("rec", HC, (("name", T.c("hw")), ("state", ("make", "rclcpp_lifecycle::State", T.c(st), T.c(LABELS[st]))))))

            def hook(I, s, call):
                if call.name == "get_components_status":
                    held.setdefault(cb, []).append(frozenset(m for m, _ in s.locks))
                    I.wr(s, ("sym", "components"), info(s.tags.get("hw", INACTIVE)))
                    return [(s, ("loc", ("sym", "components")))]
                if call.name == "set_component_state":
                    held.setdefault(cb, []).append(frozenset(m for m, _ in s.locks))
                    a = tuple(reads(I, s, x) for x in call.args)
                    out = []
                    for good, end in ((True, ACTIVE), (False, INACTIVE), (False, UNCONF)):
                        s2 = s.copy()
                        s2.tags["hw"] = end
                        s2.tags["ev"] = s2.tags.get("ev", ()) + (("set", a, good, end),)
                        out.append((s2, ("enum", I.hrtq + ("::OK" if good else "::ERROR"), I.hrt["OK" if good else "ERROR"])))
                    return out
                return None
            req = {"name": T.c("hw" if known else "other"), "target_state": ("rec", "lifecycle_msgs::msg::State", (("id", T.c(ACTIVE)), ("label", T.c(label))))}
            st0 = ("rec", "lifecycle_msgs::msg::State", (("id", T.c(0)), ("label", T.c(""))))
            I, outs = run_srv(ctx, cb, (), req, hooks=[hook], resp={"ok": ("sym", "unset"), "state": st0})
            for kind, s, v in outs:
                sets = [e for e in events(s) if e[0] == "set"]
                ok = I.read(s, rfld("ok"))
                sid = I.read(s, ("fld", rfld("state"), "id"))
                z = f"component {'known' if known else 'unknown'}, transitions {[(e[2], LABELS[e[3]]) for e in sets]}, reported ok={T.show(ok)} state={T.show(sid)}"
                if kind != "ret" or not T.isc(ok):
                    ctx.undecided(cb, f"{kind}: {z}"[:250])
                    continue
                n += 1
                if not known:
                    ctx.check(ok[1] is False and not sets, "a request for an unknown component fails and changes nothing", WHERE, z)
                    continue
                ctx.check(len(sets) == 1, "a service performs its operation exactly once", WHERE, f"{cb}: {z}")
                if len(sets) != 1:
                    continue
                a = sets[0][1]
                ctx.check(a[0] == T.c("hw"), "the operation gets what was requested", WHERE, f"{cb}: component {T.show(a[0])}")
                t = C.state_term(a[1])
                if t is not None and T.isc(t[2]):
                    ctx.check(t[2] == T.c(ACTIVE), "the operation gets what was requested", WHERE, f"{cb}: target state {T.show(t[2])}")
                ctx.check(ok[1] == sets[0][2], "the reported outcome is that of the operation", WHERE, f"{cb}: {z}")
                if T.isc(sid):
                    ctx.check(sid[1] == sets[0][3], "the reported state is the one the component is in afterwards", WHERE, f"{cb}: {z}")
                else:
                    ctx.undecided(cb, z[:250])
    if not n:
        ctx.undecided(cb, "no path understood")


class Itf:
    def __init__(self, kinds):
        self.k = kinds        # name -> (available, claimed, data type)


def rm_hook(held, cb, cmd, st, exports=None):
    def hook(I, s, call):
        nm = call.name
        if not call.fq.startswith("hardware_interface::ResourceManager"):
            return None
        held.setdefault(cb, []).append(frozenset(m for m, _ in s.locks))
        a = reads(I, s, call.args[0]) if call.args else None
        if nm == "command_interface_keys":
            return [(s, strs(*cmd))]
        if nm == "state_interface_keys":
            return [(s, strs(*st))]
        if a is not None and T.isc(a):
            x = cmd.get(a[1]) if nm.startswith(("command_", "get_command_")) else st.get(a[1]) if nm.startswith(("state_", "get_state_")) else None
            if x is not None:
                if nm.endswith("is_available"):
                    return [(s, T.c(x[0]))]
                if nm.endswith("is_claimed"):
                    return [(s, T.c(x[1]))]
                if nm.endswith("data_type"):
                    return [(s, T.c(x[2]))]
            if x is None and nm.endswith(("is_available", "is_claimed")):
                return [(s, T.FALSE)]        # not an interface of that kind
            if exports is not None and nm == "get_controller_reference_interface_names":
                return [(s, strs(*exports[0].get(a[1], ())))]
            if exports is not None and nm == "get_controller_exported_state_interface_names":
                return [(s, strs(*exports[1].get(a[1], ())))]
        return None
    return hook


CMDS = {"j/pos": (True, False, "double"), "j/vel": (False, True, "bool"), "j/eff": (True, True, "double")}
STS = {"j/pos": (True, True, "int32"), "j/vel": (False, False, "float")}


def listed(I, s, v):
    """elements of a list as values, None if not known"""
    v = reads(I, s, v)
    b = v
    while b[0] == "upd":
        b = b[1]
    return [T.index(v, T.c(i)) for i in range(len(b[1]))] if b[0] == "vec" else None


def itf_check(ctx, what, got, want, claims):
    """got: list of records; want: {name: (available, claimed, type)}"""
    if got is None:
        return ctx.undecided(what, "list not understood")
    names = [T.field(x, "name") for x in got]
    if not all(T.isc(x) for x in names):
        return ctx.undecided(what, f"names {[T.show(x) for x in names]}"[:200])
    ctx.check(sorted(x[1] for x in names) == sorted(want), "every interface is listed exactly once", WHERE, f"{what}: {[x[1] for x in names]} instead of {sorted(want)}")
    for nm, x in zip(names, got):
        w = want.get(nm[1])
        if w is None:
            continue
        for f, y in (("is_available", w[0]), ("is_claimed", w[1] if claims else False), ("data_type", w[2])):
            g = T.field(x, f)
            if T.isc(g):
                ctx.check(g[1] == y, f"the listed attributes of an interface are its own", WHERE, f"{what}: {nm[1]} has {f} = {g[1]} instead of {y}")
            else:
                ctx.undecided(what, f"{nm[1]}.{f} is {T.show(g)}"[:200])


def hardware(ctx, held):
    cb = "list_hardware_interfaces_srv_cb"
    I, outs = run_srv(ctx, cb, hooks=[rm_hook(held, cb, CMDS, STS)], resp={"command_interfaces": strs(), "state_interfaces": strs()})
    for kind, s, v in outs:
        if kind != "ret":
            ctx.undecided(cb, f"ends with {kind} {s.exc}")
            continue
        itf_check(ctx, "listed command interfaces", listed(I, s, I.read(s, rfld("command_interfaces"))), CMDS, True)
        itf_check(ctx, "listed state interfaces", listed(I, s, I.read(s, rfld("state_interfaces"))), STS, False)
    cb = "list_hardware_components_srv_cb"
    HC = "hardware_interface::HardwareComponentInfo"

    def comp(name, ty, plugin, st, is_async, rate, cmd, state):
        return ("rec", HC, (("name", T.c(name)), ("type", T.c(ty)), ("group", T.c("")), ("plugin_name", T.c(plugin)), ("is_async", T.c(is_async)), ("rw_rate", T.c(rate)),
                            ("state", ("make", "rclcpp_lifecycle::State", T.c(st), T.c(LABELS[st]))), ("command_interfaces", strs(*cmd)), ("state_interfaces", strs(*state))))
    comps = {"a": ("actuator", "pa", ACTIVE, False, 500, ("j/pos", "j/vel"), ("j/pos",)), "b": ("sensor", "pb", INACTIVE, True, 50, (), ("j/vel",)), "c": ("system", "pc", UNCONF, False, 7, ("j/eff",), ())}
    m = ("vec", ())
    for k, x in comps.items():
        m = ("mapset", m, T.c(k), comp(k, *x))
    base = rm_hook(held, cb, CMDS, STS)

    def hook(I, s, call):
        if call.name == "get_components_status":
            held.setdefault(cb, []).append(frozenset(m for m, _ in s.locks))
            I.wr(s, ("sym", "components"), m)
            return [(s, ("loc", ("sym", "components")))]
        return base(I, s, call)
    I, outs = run_srv(ctx, cb, hooks=[hook], resp={"component": strs()})
    for kind, s, v in outs:
        got = listed(I, s, I.read(s, rfld("component")))
        if kind != "ret" or got is None:
            ctx.undecided(cb, f"{kind}: {T.show(I.read(s, rfld('component')))}"[:250])
            continue
        names = [T.field(x, "name") for x in got]
        if not all(T.isc(x) for x in names):
            ctx.undecided(cb, f"names {[T.show(x) for x in names]}"[:200])
            continue
        ctx.check(sorted(x[1] for x in names) == sorted(comps), "every hardware component is listed exactly once", WHERE, f"{[x[1] for x in names]}")
        for nm, x in zip(names, got):
            w = comps.get(nm[1])
            if w is None:
                continue
            sid = T.field(T.field(x, "state"), "id")
            for f, g, y in [(f, T.field(x, f), y) for f, y in zip(("type", "plugin_name", "is_async", "rw_rate"), (w[0], w[1], w[3], w[4]))] + [("state", sid, w[2])]:
                if T.isc(g):
                    ctx.check(g[1] == y, "the listed attributes of a component are its own", WHERE, f"component {nm[1]} has {f} = {g[1]} instead of {y}")
                else:
                    ctx.undecided(cb, f"{nm[1]}.{f} is {T.show(g)}"[:200])
            itf_check(ctx, f"command interfaces of component {nm[1]}", listed(I, s, T.field(x, "command_interfaces")), {k: CMDS[k] for k in w[5]}, True)
            itf_check(ctx, f"state interfaces of component {nm[1]}", listed(I, s, T.field(x, "state_interfaces")), {k: STS[k] for k in w[6]}, False)


def controllers(ctx, held):
    """list_controllers"""
    cb = "list_controllers_srv_cb"
    worlds = []
    lead = lambda st: Ctl("lead", st, cmd=("mid/r1", "mid/r2", "hw/x"), st=("hw/p",), rate=50)
    worlds.append(([lead(ACTIVE), Ctl("mid", ACTIVE, cmd=("hw/y",), st=("hw/q",), chainable=True, chained=True, rate=100)], {"mid": ("mid/r1", "mid/r2")}, {"mid": ("mid/s1",)}))
    worlds.append(([Ctl("mid", INACTIVE, cmd=("hw/y",), chainable=True), lead(INACTIVE), Ctl("low", UNCONF, cmd=("hw/z",), is_async=True)], {"mid": ("mid/r1", "mid/r2")}, {"mid": ()}))
    worlds.append(([Ctl("two", ACTIVE, cmd=("mid/r1", "other/r3")), Ctl("mid", ACTIVE, cmd=("hw/y",), chainable=True, chained=True), Ctl("other", ACTIVE, cmd=("hw/z",), chainable=True, chained=True)],
                   {"mid": ("mid/r1",), "other": ("other/r3",)}, {"mid": (), "other": ("other/s",)}))
    worlds.append(([Ctl("fin", FINAL, cmd=("hw/y",)), Ctl("solo", ACTIVE, cmd=("hw/z",), rate=300)], {}, {}))
    worlds.append(([Ctl("free", ACTIVE, cmd=("hw/y",), chainable=True, is_async=True), Ctl("idle", INACTIVE, cmd=("hw/z",), chainable=True, chained=True)], {"free": ("free/r",), "idle": ("idle/r",)}, {"free": (), "idle": ()}))
    for ctls, _, _ in worlds:
        for c in ctls:
            c.claims = c.cmd if c.state == ACTIVE else ()
    n = 0
    for ctls, refs, exps in worlds:
        hook0 = rm_hook(held, cb, {}, {}, (refs, exps))

        def hook(I, s, call):
            if call.name == "get_update_rate" and call.cls.startswith("controller_interface"):
                return None
            return hook0(I, s, call)
        order = [c.name for c in ctls]

        def claims(I, s):
            pass
        I, outs = run_srv(ctx, cb, ctls, hooks=[hook], resp={"controller": strs()})
        for kind, s, v in outs:
            got = listed(I, s, I.read(s, rfld("controller")))
            if kind != "ret" or got is None:
                ctx.undecided(cb, f"{kind} {s.exc}: {T.show(I.read(s, rfld('controller')))}"[:250])
                continue
            full = I.read(s, rfld("controller"))
            names = [T.field(x, "name") for x in got]
            if not all(T.isc(x) for x in names):
                ctx.undecided(cb, f"names {[T.show(x) for x in names]}"[:200])
                continue
            n += 1
            ctx.check(sorted(x[1] for x in names) == sorted(order), "every controller is listed exactly once", WHERE, f"{[x[1] for x in names]}")
            for i, nm in enumerate(names):
                c = next((c for c in ctls if c.name == nm[1]), None)
                if c is None:
                    continue
                L = ("idx", rfld("controller"), T.c(i))
                rd = lambda f: reads(I, s, I.read(s, ("fld", L, f)))
                conf = c.state in (ACTIVE, INACTIVE)
                want = {"state": LABELS[c.state], "is_async": c.is_async, "is_chainable": c.chainable, "is_chained": c.chained, "update_rate": c.rate or I.rate, "type": "t"}
                for f, y in want.items():
                    g = rd(f)
                    if T.isc(g):
                        ctx.check(g[1] == y, "the listed attributes of a controller are its own", WHERE, f"controller {c.name} has {f} = {g[1]} instead of {y}")
                    else:
                        ctx.undecided(cb, f"{c.name}.{f} is {T.show(g)}"[:200])
                cut = lambda xs: [x.split("/", 1)[1] for x in xs]
                wl = {"claimed_interfaces": list(c.claims), "required_command_interfaces": list(c.cmd) if conf else [], "required_state_interfaces": list(c.st) if conf else [],
                      "reference_interfaces": cut(refs.get(c.name, ())) if conf and c.chainable else [], "exported_state_interfaces": cut(exps.get(c.name, ())) if conf and c.chainable else []}
                for f, y in wl.items():
                    g = rd(f)
                    if g[0] == "vec" and all(T.isc(x) for x in g[1]):
                        ctx.check([x[1] for x in g[1]] == y, "the listed interfaces of a controller are its own", WHERE, f"controller {c.name} has {f} = {[x[1] for x in g[1]]} instead of {y}")
                    elif g[0] in ("fld", "def") and not y:
                        ctx.ok("the listed interfaces of a controller are its own", WHERE)
                    else:
                        ctx.undecided(cb, f"{c.name}.{f} is {T.show(g)}"[:200])
                loaded = {x.name for x in ctls}
                wc = {}
                if conf:
                    for x in c.cmd:
                        p, r = x.split("/", 1)
                        if p in loaded:
                            wc.setdefault(p, []).append(r)
                g = rd("chain_connections")
                if g[0] in ("fld", "def"):
                    g = ("vec", ())
                if g[0] != "vec":
                    ctx.undecided(cb, f"{c.name}.chain_connections is {T.show(g)}"[:200])
                    continue
                have = {}
                for j, x in enumerate(g[1]):
                    a, b = T.field(x, "name"), reads(I, s, T.field(x, "reference_interfaces"))
                    if not T.isc(a) or b[0] != "vec" or not all(T.isc(y) for y in b[1]):
                        have = None
                        break
                    have.setdefault(a[1], []).extend(y[1] for y in b[1])
                if have is None:
                    ctx.undecided(cb, f"{c.name}.chain_connections is {T.show(g)}"[:200])
                    continue
                ctx.check(have == wc and len(g[1]) == len(wc), "a controller's chain connections name each controller it commands with the references it uses of that one", WHERE,
                          f"controller {c.name} commanding {list(c.cmd)}: connections {have} instead of {wc}")
    if not n:
        ctx.undecided(cb, "no path understood")


def types(ctx, held):
    cb = "list_controller_types_srv_cb"

    I, outs = run_srv(ctx, cb, declared={"plain": ("plain/A", "plain/B"), "chainable": ("chain/C",)}, resp={"types": strs(), "base_classes": strs()})
    for kind, s, v in outs:
        a, b = listed(I, s, I.read(s, rfld("types"))), listed(I, s, I.read(s, rfld("base_classes")))
        if kind != "ret" or a is None or b is None or not all(T.isc(x) for x in a):
            ctx.undecided(cb, f"{kind}: types {a}"[:250])
            continue
        ctx.check(sorted(x[1] for x in a) == ["chain/C", "plain/A", "plain/B"], "every controller type is listed exactly once", WHERE, f"{[x[1] for x in a]}")
        ctx.check(len(a) == len(b), "every listed type has a base class", WHERE, f"{len(a)} types, {len(b)} base classes")
        for x, y in zip(a, b):
            bc = [z[1] for z in T.subterms(y) if T.isc(z) and isinstance(z[1], str)] + [z[1] for z in T.subterms(y) if z[0] in ("glob", "loc", "fn") and isinstance(z[1], str)]
            if bc:
                ctx.check(any("Chainable" in z for z in bc) == x[1].startswith("chain"), "each listed type has the base class it is loaded with", WHERE, f"{x[1]} is listed with {bc}")
            else:
                ctx.undecided(cb, f"base class {T.show(y)}"[:200])


def run(ctx):
    ctx.where = WHERE
    ctx.rule("every service callback is interpreted for all outcomes of the operation behind it: one call, with the requested arguments, its outcome in the response; reload stops and unloads every controller first; "
             "list services report each controller, type, component and interface once with its own attributes and chain connections; all callbacks hold one common mutex whenever they use the manager")
    ctx.assumption("the operations themselves are covered by P19, P20, P24, P29, P30, P53, P55")
    held = {}
    for f in (simple, reload, component, hardware, controllers, types):
        ctx.section(f.__name__, f, ctx, held)
    common = None
    for cb, ls in held.items():
        for x in ls:
            common = x if common is None else common & x
    per = {cb: frozenset.intersection(*ls) for cb, ls in held.items()}
    vote = {}
    for ls in per.values():
        for m in ls:
            vote[m] = vote.get(m, 0) + 1
    best = max(vote, key=lambda m: vote[m]) if vote else None
    for cb, ls in sorted(per.items()):
        if best is None:
            ctx.undecided("services", "no lock recognised")
            break
        ctx.check(best in ls, "services that use the manager are serialised by one lock", WHERE, f"{cb} works without {T.show(best)}")
