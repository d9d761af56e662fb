"""P30 loading, configuring, cleaning up and unloading controllers."""
from engine import terms as T
from engine import cm as C
from engine import manage as M
from engine.cm import Ctl, UNCONF, INACTIVE, ACTIVE, FINAL, NAMES, events, strs
from engine.util import *

STATES = (UNCONF, INACTIVE, ACTIVE, FINAL)
EFFECTS = ("node", "import", "remove", "publish", "add_node", "remove_node", "unregister", "register", "export", "chained", "create", "init", "exported", "release", "assign")


def pair(st, **k):
    return [Ctl("d", INACTIVE, cmd=["j/z"], chainable=True), Ctl("a", st, cmd=["j/x"], **k), Ctl("u", UNCONF, cmd=["j/w"]), Ctl("b", ACTIVE, cmd=["j/y"])]


def effects(ev):
    return [e for e in ev if e[0] in EFFECTS]


def outcome(ctx, I, what, kind, s, v):
    """True for OK, False for ERROR, None if not understood"""
    if kind != "ret":
        thrown(ctx, what, kind, s)
        return None
    ok = T.eq(v, I.ret_enum("OK"))
    if not T.isc(ok):
        ctx.undecided(what, f"result {T.show(v)}"[:200])
        return None
    return ok == T.TRUE


def thrown(ctx, what, kind, s):
    """an operation that does not return: alarm only if it passes on an exception of the controller"""
    res = [e for e in events(s) if e[0] == "res" and "throw" in str(e[-1])]
    if kind == "throw" and s.exc and res and s.exc[2] in ("rethrow", res[-1][1]):
        ctx.bad("exceptions of controllers are handled", ctx.where, f"{what} ({short(res[-1:])}): {s.exc[0]} reaches the caller")
    else:
        ctx.undecided(what, f"ends with {kind} {s.exc}")


def others(ctx, what, ev, name):
    """effects on controllers that were not named"""
    bad = [e for e in ev if e[0] in ("node", "chained", "release", "assign", "exported", "init") and e[{"node": 2}.get(e[0], 1)] != name]
    bad += [e for e in ev if e[0] in ("import", "remove") and T.isc(e[2]) and e[2] != T.c(name)]
    bad += [e for e in ev if e[0] == "export" and T.isc(e[2] if isinstance(e[2], tuple) else T.c(e[2])) and e[2] not in (T.c(name), name)]
    bad += [e for e in ev if e[0] in ("add_node", "remove_node") and e[1] != name]
    ctx.check(not bad, "the operation touches the named controller only", ctx.where, f"{what}: {short(bad)}")


def short(ev):
    return "; ".join(" ".join(str(x if not isinstance(x, tuple) else T.show(x)) for x in e) for e in ev)[:300]


def is_string(f):
    return "ControllerSpec" not in f["params"][0]["t"]


def unload(ctx, name, ctls, state, chainable):
    f = ctx.db.one(C.CM + "unload_controller")
    ctx.where = where(f)
    I, outs = M.request(ctx, "unload_controller", ctls, {0: T.c(name)})
    ctx.saw_interp(I)
    what = f"unloading {'an unknown controller' if state is None else ('a chainable' if chainable else 'a') + ' controller that is ' + NAMES[state]}"
    for kind, s, v in outs:
        ev = events(s)
        ok = outcome(ctx, I, what, kind, s, v)
        if ok is None:
            continue
        z = f"{what} ({short([e for e in ev if e[0] == 'res'])})"
        if state in (None, ACTIVE):
            ctx.check(not ok, "only controllers that exist and are not active are unloaded", ctx.where, f"{z}: OK")
            ctx.check(not effects(ev), "a refused request changes nothing", ctx.where, f"{z}: {short(effects(ev))}")
            continue
        others(ctx, z, ev, name)
        pub = [e[1] for e in ev if e[0] == "publish"]
        if not ok:
            ctx.check(not pub, "a controller stays loaded when unloading fails", ctx.where, f"{z}: {pub}")
            ctx.check(not [e for e in ev if e[0] in ("remove_node", "unregister")], "a controller stays loaded when unloading fails", ctx.where, f"{z}: {short(ev)}")
            if state != FINAL:     # it may only be refused for a reason
                fail = [e for e in ev if e[0] == "res" and e[1] == "cleanup" and e[3] != UNCONF]
                ctx.check(state == INACTIVE and fail, "unloading fails only if the controller cannot be cleaned up", ctx.where, f"{z}: ERROR")
            continue
        rest = tuple(c.name for c in ctls if c.name != name)
        if any(p is None or None in p for p in pub):
            ctx.undecided(what, f"published list {pub}")
        else:
            ctx.check(pub == [rest], "unloading removes exactly the named controller", ctx.where, f"{z}: published {pub}")
        ctx.check([e[1] for e in ev if e[0] == "remove_node"] == [name], "the node of an unloaded controller is removed from the executor", ctx.where, f"{z}: {short(ev)}")
        if state != FINAL:
            end = dict(s.tags["st"])[name]
            ctx.check([e for e in ev if e[0] == "node" and e[1] == "shutdown"], "a controller is shut down before it is unloaded", ctx.where, f"{z}: {short(ev)}")
            if state == INACTIVE:
                ops = [e[1] for e in ev if e[0] == "node"]
                ctx.check(ops[:1] == ["cleanup"], "an inactive controller is cleaned up before it is unloaded", ctx.where, f"{z}: {ops}")
            i = [i for i, e in enumerate(ev) if e[0] == "publish"]
            ctx.check(not [e for e in ev[i[0]:] if e[0] == "node"] if i else True, "transitions happen before the controller is unloaded", ctx.where, f"{z}: {short(ev)}")
        if chainable:
            left = M.registered(ev, name, ("state", "reference"))
            ctx.check(not left, "an unloaded controller has no exported interfaces left", ctx.where, f"{z}: {sorted(left)} interfaces are still registered")


def cleanup(ctx, name, ctls, state, chainable):
    fs = [f for f in ctx.db.find(C.CM + "cleanup_controller") if is_string(f)]
    ctx.where = where(fs[0])
    I, outs = M.request(ctx, "cleanup_controller", ctls, {0: T.c(name)}, pick=is_string)
    ctx.saw_interp(I)
    what = f"cleaning up {'an unknown controller' if state is None else ('a chainable' if chainable else 'a') + ' controller that is ' + NAMES[state]}"
    for kind, s, v in outs:
        ev = events(s)
        ok = outcome(ctx, I, what, kind, s, v)
        if ok is None:
            continue
        z = f"{what} ({short([e for e in ev if e[0] == 'res'])})"
        if state != INACTIVE:
            if state != UNCONF:
                ctx.check(not ok, "only inactive controllers are cleaned up", ctx.where, f"{z}: OK")
            ctx.check(not [e for e in effects(ev) if e[0] != "remove" or state != UNCONF], "a refused request changes nothing", ctx.where, f"{z}: {short(effects(ev))}")
            continue
        others(ctx, z, ev, name)
        end = dict(s.tags["st"])[name]
        threw = [e for e in ev if e[0] == "res" and str(e[3]).startswith("throw")]
        ctx.check(ok == (end == UNCONF and not threw), "cleaning up succeeds exactly if the controller ends unconfigured", ctx.where, f"{z}: {'OK' if ok else 'ERROR'} although it ends {NAMES[end]}")
        exports(ctx, z, ev, name, end, threw, chainable)


def exports(ctx, z, ev, name, end, threw, chainable):
    """registered exports after a cleanup, everything was registered before"""
    if not chainable or threw:
        return
    left = M.registered(ev, name, ("state", "reference"))
    if end == INACTIVE:
        ctx.check(left == {"state", "reference"}, "a controller that stays inactive keeps its exported interfaces", ctx.where, f"{z}: it can be activated but only {sorted(left)} interfaces are registered")
    elif end == UNCONF:
        ctx.check(not left, "a cleaned up controller has no exported interfaces left", ctx.where, f"{z}: {sorted(left)} interfaces are still registered")


def configure(ctx, name, ctls, state, chainable, unique=True):
    f = ctx.db.one(C.CM + "configure_controller")
    ctx.where = where(f)
    I, outs = M.request(ctx, "configure_controller", ctls, {0: T.c(name)})
    ctx.saw_interp(I)
    what = f"configuring {'an unknown controller' if state is None else ('a chainable' if chainable else 'a') + ' controller that is ' + NAMES[state]}{'' if unique else ' and names an interface twice'}"
    for kind, s, v in outs:
        ev = events(s)
        res = [e for e in ev if e[0] == "res"]
        ok = outcome(ctx, I, what, kind, s, v)
        if ok is None:
            continue
        z = f"{what} ({short(res)})"
        if state in (None, ACTIVE, FINAL):
            ctx.check(not ok, "only unconfigured and inactive controllers are configured", ctx.where, f"{z}: OK")
            ctx.check(not effects(ev), "a refused request changes nothing", ctx.where, f"{z}: {short(effects(ev))}")
            continue
        others(ctx, z, ev, name)
        ops = [e[1] for e in ev if e[0] == "node"]
        conf = [i for i, e in enumerate(ev) if e[0] == "node" and e[1] == "configure"]
        clean = [i for i, e in enumerate(ev) if e[0] == "res" and e[1] == "cleanup" and e[3] == UNCONF]
        if state == INACTIVE:
            ctx.check(ops[:1] == ["cleanup"], "an inactive controller is cleaned up before it is configured", ctx.where, f"{z}: {ops}")
            ctx.check(not conf or clean and clean[0] < conf[0], "a controller that cannot be cleaned up is not configured", ctx.where, f"{z}: {short(ev)}")
        ctx.check(len(conf) <= 1, "a controller is configured once", ctx.where, f"{z}: {short(ev)}")
        end = dict(s.tags["st"])[name]
        threw = [e for e in res if "throw" in str(e[3:]) or e[1] == "exported" and e[3] == "throw"]
        configured = bool(conf) and [e for e in ev[conf[0]:] if e[0] == "res" and e[1] == "configure" and e[3] == INACTIVE]
        some = any(e[0] == "res" and e[1] == "exported" and e[3] != "throw" and e[4] for e in ev)
        good = configured and unique and not threw and (not chainable or some)
        ctx.check(ok == bool(good), "configuring succeeds exactly if the controller is usable afterwards", ctx.where, f"{z}: {'OK' if ok else 'ERROR'}")
        pub = [e[1] for e in ev if e[0] == "publish"]
        if any(p is None or None in p for p in pub):
            ctx.undecided(what, f"published list {pub}")
        else:
            bad = [p for p in pub if sorted(p) != sorted(c.name for c in ctls)]
            ctx.check(not bad and len(pub) <= 1, "configuring changes the order of the controllers only", ctx.where, f"{z}: published {pub}")
        if not chainable:
            continue
        if conf:
            at = M.registered(ev[:conf[0]], name, ("state", "reference"))
            ctx.check(not at, "exported interfaces of an earlier configuration are removed first", ctx.where, f"{z}: {sorted(at)} interfaces are still registered")
        last = max([i for i, e in enumerate(ev) if e[0] == "import"], default=None)
        if ok:
            have = M.registered(ev, name, ("state", "reference") if not conf else ())
            sure = {e[3] for e in res if e[1] == "exported" and e[3] != "throw" and e[4]}
            ctx.check(sure <= have, "all exported interfaces are registered", ctx.where, f"{z}: {sorted(have)} of {sorted(sure)}")
            for k in sure:
                imp = [e for e in ev if e[0] == "import" and e[1] == k]
                ctx.check(len(imp) == 1, "exported interfaces are registered once", ctx.where, f"{z}: {short(imp)}")
                if imp and imp[0][3] is not None and "of " + name not in repr(imp[0][3]):
                    ctx.check("of " not in repr(imp[0][3]), "the interfaces the controller exports are registered", ctx.where, f"{z}: {short(imp)}")
                if imp and imp[0][3] is not None and f"{'reference' if k == 'state' else 'state'} of " in repr(imp[0][3]):
                    ctx.bad("the interfaces the controller exports are registered", ctx.where, f"{z}: {short(imp)}")
            after = [e for e in ev[last + 1:] if e[0] == "export"] if last is not None else []
            allex = [e for e in ev if e[0] == "export"]
            ctx.check(all("_unavailable" in e[1] for e in allex), "exported interfaces of a controller that is not active are unavailable", ctx.where, f"{z}: {short(allex)}")
            for k, fn in (("state", "make_controller_exported_state_interfaces_unavailable"), ("reference", "make_controller_reference_interfaces_unavailable")):
                imp = [i for i, e in enumerate(ev) if e[0] == "import" and e[1] == k]
                if k in sure and imp:
                    ctx.check([e for e in ev[imp[0]:] if e[0] == "export" and e[1] == fn], "exported interfaces of a controller that is not active are unavailable", ctx.where, f"{z}: the {k} interfaces: {short(ev[imp[0]:])}")
        elif configured:
            cl = [e for e in ev[conf[0]:] if e[0] == "node" and e[1] == "cleanup"]
            ctx.check(cl, "a controller that turns out not to be usable is cleaned up again", ctx.where, f"{z}: {short(ev)}")
            done = [e for e in ev[conf[0]:] if e[0] == "res" and e[1] == "cleanup" and e[3] == UNCONF]
            if done:
                left = M.registered(ev, name, ("state", "reference"))
                ctx.check(not left, "a cleaned up controller has no exported interfaces left", ctx.where, f"{z}: {sorted(left)} interfaces are still registered")


def load(ctx, name, what, params, by_name, fails):
    pick = (lambda f: len(f["params"]) == 1) if by_name else (lambda f: len(f["params"]) == 2)
    fs = [f for f in ctx.db.find(C.CM + "load_controller") if pick(f)]
    if not fs:
        ctx.undecided(what, "load_controller not found")
        return
    ctx.where = where(fs[0])
    ctls = [Ctl("b", ACTIVE, cmd=["j/y"]), Ctl("n", UNCONF, cmd=["j/x"])]
    args = {0: T.c(name)} if by_name else {0: T.c(name), 1: T.c("t/T")}
    I, outs = M.request(ctx, "load_controller", ctls, args, pick=pick, hidden=("n",), params=params)
    ctx.saw_interp(I)
    loaded = 0
    regs = set()
    for kind, s, v in outs:
        ev = events(s)
        z = f"{what} ({short([e for e in ev if e[0] == 'res'])})"
        if kind != "ret":
            thrown(ctx, what, kind, s)
            continue
        null = v in (T.c(None), ("nullptr",)) or v[0] == "const" and v[1] is None
        pub = [e[1] for e in ev if e[0] == "publish"]
        threw = [e for e in ev if e[0] == "res" and str(e[-1]).startswith("throw")]
        inits = [e[3] for e in ev if e[0] == "res" and e[1] == "init"]
        good = not fails and not threw and inits == ["OK"]
        if null:
            ctx.check(not good, "a controller that can be loaded is loaded", ctx.where, f"{z}: {short(ev)}")
            bad = [e for e in ev if e[0] in ("publish", "add_node", "register")]
            reg = {T.show(e[1]) for e in bad if e[0] == "register"}
            un = {T.show(e[1]) for e in ev if e[0] == "unregister"}
            bad = [e for e in bad if e[0] != "register"] + [("register", x) for x in reg - un]
            ctx.check(not bad, "a controller that is not loaded leaves nothing behind", ctx.where, f"{z}: {short(bad)}")
            continue
        if v != ("sym", "ctl n"):
            ctx.undecided(what, f"result {T.show(v)}"[:200])
            continue
        loaded += 1
        ctx.check(not fails, "only controllers with a new name and without themselves as fallback are loaded", ctx.where, f"{z}: it is loaded")
        ctx.check(good or fails, "a controller that cannot be created or initialized is not loaded", ctx.where, f"{z}: it is loaded")
        if any(p is None or None in p for p in pub):
            ctx.undecided(what, f"published list {pub}")
        elif not fails:
            ctx.check([sorted(p) for p in pub] == [["b", "n"]], "loading adds exactly the named controller", ctx.where, f"{z}: published {pub}")
        ctx.check([e[1] for e in ev if e[0] == "add_node"] == ["n"], "the node of a loaded controller is added to the executor", ctx.where, f"{z}: {short(ev)}")
        regs |= {e[1][1] for e in ev if e[0] == "register" and e[1] is not None and T.isc(e[1])}
    if not fails and not loaded:
        ctx.undecided(what, "no path loads the controller")
    return regs


def statistics(ctx):
    regs = load(ctx, "n", "loading a controller", {}, False, False)
    f = ctx.db.one(C.CM + "unload_controller")
    I, outs = M.request(ctx, "unload_controller", [Ctl("n", UNCONF, cmd=["j/x"])], {0: T.c("n")})
    ctx.where = where(f)
    for kind, s, v in outs:
        if kind == "ret" and T.eq(v, I.ret_enum("OK")) == T.TRUE:
            un = [e[1] for e in events(s) if e[0] == "unregister"]
            if not all(T.isc(u) for u in un):
                ctx.undecided("statistics", short(un))
                continue
            left = [r for r in sorted(regs or ()) if not any(u[1] == r or str(u[1]).startswith(r + "/") for u in un)]
            ctx.check(not left, "the statistics of an unloaded controller are unregistered", ctx.where, f"still registered: {left}")


def run(ctx):
    ctx.where = "controller_manager.cpp"
    ctx.rule("load_controller, configure_controller, cleanup_controller and unload_controller are interpreted abstractly for a known and an unknown controller in every lifecycle state, for every end state of every transition and every exception of the controller; results and effects (transitions, exported interfaces, node, statistics, published list) are checked on every path.")
    ctx.assumption("transitions leave the lifecycle state as rclcpp_lifecycle defines; the other controllers that are loaded are unconfigured, inactive and chainable, or active; services are serialised (P28)")
    tasks = []
    for st in STATES:
        for ch in (False, True):
            for n, fn in (("unload", unload), ("clean up", cleanup), ("configure", configure)):
                tasks.append((f"{n} {NAMES[st]} {'chainable' if ch else 'plain'}", fn, (ctx, "a", pair(st, chainable=ch), st, ch)))
    for n, fn in (("unload", unload), ("clean up", cleanup), ("configure", configure)):
        tasks.append((f"{n} unknown", fn, (ctx, "q", pair(INACTIVE), None, False)))
    for ch in (False, True):
        for kw in ({"cmd": ["j/x", "j/x"]}, {"cmd": ["j/x"], "st": ["j/s", "j/s"]}):
            tasks.append((f"configure twice-named {ch} {'st' in kw}", configure, (ctx, "a", [Ctl("a", UNCONF, chainable=ch, **kw), Ctl("b", ACTIVE, cmd=["j/y"])], UNCONF, ch, False)))
    tasks.append(("load", statistics, (ctx,)))
    tasks.append(("load known", load, (ctx, "b", "loading a controller whose name is in use", {}, False, True)))
    tasks.append(("load self fallback", load, (ctx, "n", "loading a controller with itself as fallback controller", {"fallback_controllers": strs("q", "n")}, False, True)))
    tasks.append(("load fallback", load, (ctx, "n", "loading a controller with fallback controllers", {"fallback_controllers": strs("q")}, False, False)))
    tasks.append(("load by name", load, (ctx, "n", "loading a controller by name", {"type": T.c("t/T")}, True, False)))
    tasks.append(("load without type", load, (ctx, "n", "loading a controller without type", {}, True, True)))
    ctx.pmap(tasks)
