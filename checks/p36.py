"""P36 the controller base keeps lifecycle callbacks, the asynchronous thread and the interfaces consistent."""
from engine import terms as T
from engine import base as B
from engine.base import *
from engine.util import *

WHERE = "controller_interface/src/controller_interface_base.cpp"
PREV = ("sym", "previous state")
DET = "realtime_tools::AsyncSchedulingPolicy::DETACHED"
FEED = ("enum", "realtime_tools::AsyncSchedulingPolicy::FRONT_RUNNER", 7)


def rec(name, **fs):
    return ("rec", name, tuple(fs.items()))


def params(cm, rate):
    f = lambda n: ("sym", n)
    return rec("controller_interface::ControllerInterfaceParams", controller_name=T.c("ctl"), node_namespace=T.c(""), node_options=f("options"),
               robot_description=T.c("urdf"), update_rate=T.c(rate), controller_manager_update_rate=T.c(cm), hard_joint_limits=f("hard limits"), soft_joint_limits=f("soft limits"))


def fn(db, name, n=None):
    return [f for f in db.find(BASE + name) if n is None or len(f["params"]) == n][0]


def good(ctx, what, kind, s, extra=()):
    if kind == "lost" or any(x[0] == "fresh" or "mut" == x[0] for x in s.facts if isinstance(x, tuple)):
        ctx.undecided(what, f"a path depends on something not understood ({kind})")
        return False
    return True


def initialised(ctx):
    """init(): exactly one callback per transition; the outcome follows on_init()"""
    I = B.interp(ctx)
    s = B.start(I, UNCONF)
    I.wr(s, ("fld", IMPL, "node_"), T.c(None))
    outs = I.run(fn(ctx.db, "init", 1), args={0: params(100, 100)}, state=s)
    ctx.saw_interp(I, (1,))
    ok = []
    for kind, s, v in outs:
        if not good(ctx, "init", kind, s):
            continue
        ev = B.events(s)
        if kind != "ret":
            ctx.undecided("init", f"ends with {kind} {s.exc}")
            continue
        res = [e[2] for e in ev if e[0] == "result" and e[1] == "init"]
        kinds = [e[1] for e in ev if e[0] == "register"]
        good_ = T.eq(v, ("enum", "controller_interface::return_type::OK", I.rt["OK"]))
        z = f"on_init() results {res}, registered {sorted(kinds)}, node {[e[1] for e in ev if e[0] == 'node']}, result {T.show(v)}"
        if res == ["SUCCESS"]:
            ctx.check(good_ != T.FALSE, "init succeeds when on_init succeeds", WHERE, z)
            ctx.check(sorted(kinds) == sorted(CALLBACKS), "every lifecycle callback of the node is bound, once, before the controller is usable", WHERE, z)
            at = [i for i, e in enumerate(ev) if e[0] == "callback" and e[1] == "init"]
            ctx.check(len(at) == 1, "on_init is called exactly once", WHERE, z)
            ok.append((I, s))
        elif res and res[0] in ("FAILURE", "ERROR"):
            ctx.check(good_ != T.TRUE, "init fails when on_init does", WHERE, z)
            ctx.check([e[1] for e in ev if e[0] == "node"] == ["shutdown"], "a controller that fails to initialise is shut down", WHERE, z)
        elif res:
            ctx.check(False, "on_init is called exactly once", WHERE, z)
        else:
            ctx.undecided("init", z)
    if not ok:
        ctx.undecided("init", "no successful path")
    return ok


def bound(ctx, I, s0):
    """each registered callback"""
    lams = {}
    for e in B.events(s0):
        if e[0] == "register":
            lams.setdefault(e[1], e[2])
    mid = {"configure": 10, "cleanup": 11, "shutdown": 12, "activate": 13, "deactivate": 14, "error": 15}
    n = 0
    for k in CALLBACKS:
        if k not in lams:
            continue
        for is_async, handler, running in ((False, False, False), (True, True, True), (True, True, False), (True, False, False), (False, True, False)):
            s = s0.copy()
            s.tags["lc"], s.tags["running"], s.tags["ev"] = mid[k], running, ()
            I.wr(s, ("fld", IMPL, "async_handler_"), ("sym", "handler") if handler else T.c(None))
            I.wr(s, ("fld", IMPL, "is_async_"), T.c(is_async))
            I.wr(s, ("fld", IMPL, "skip_async_triggers_"), T.TRUE)
            I.wr(s, ("fld", IMPL, "lifecycle_id_"), T.c(99))
            for f in ("command", "state"):
                I.wr(s, ("fld", ("this",), f + "_interfaces_"), ("vec", (("sym", f"held {f} interface"),)))
            I.wr(s, ("loc", "previous"), PREV)
            outs = I.apply(lams[k], [("loc", "previous")], {"line": 0}, s)
            for s2, v in outs:
                if any(x[0] == "fresh" for x in s2.facts if isinstance(x, tuple)):
                    ctx.undecided("callback " + k, "a path depends on something not understood")
                    continue
                ev = B.events(s2)
                z = f"on_{k} (async={is_async}, handler {'running' if running else 'not running' if handler else 'absent'})"
                cb = [e for e in ev if e[0] == "callback"]
                ctx.check(len(cb) == 1 and cb[0][1] == k, "each transition calls the controller's callback of the same name, once", WHERE, z + f" calls {[e[1] for e in cb]}")
                if len(cb) != 1 or cb[0][1] != k:
                    continue
                n += 1
                a = cb[0][2]
                ctx.check(len(a) == 1 and (a[0] == PREV or a[0] == ("loc", "previous") or I.read(s2, a[0]) == PREV), "the callback gets the previous state", WHERE, z)
                res = [e[2] for e in ev if e[0] == "result"][0]
                got = v if v is None or v[0] != "loc" else I.read(s2, v[1])
                if got is None or got[0] != "enum":
                    ctx.undecided("callback " + k, f"{z} returns {T.show(got) if got else got}")
                else:
                    ctx.check(got[1].endswith("::" + res), "the result of the callback decides the transition", WHERE, z + f": {res} becomes {T.show(got)}")
                run, skip, lid, cmd, st = cb[0][4 - 1]
                end = I.read(s2, ("fld", ("this",), "command_interfaces_")), I.read(s2, ("fld", ("this",), "state_interfaces_"))
                if k in ("cleanup", "shutdown", "error"):
                    ctx.check(not run, "the asynchronous thread is stopped before cleanup, shutdown and error callbacks run", WHERE, z)
                if k in ("shutdown", "error") and any(x[0] != "vec" for x in end):
                    ctx.undecided("callback " + k, f"{z} leaves {tuple(map(T.show, end))}"[:200])
                elif k in ("shutdown", "error"):
                    ctx.check(end == (("vec", ()), ("vec", ())), "a controller that is shut down or failed holds no interfaces", WHERE, z + f" leaves {tuple(map(T.show, end))}")
                if k in ("shutdown", "error", "deactivate", "activate", "configure"):
                    ctx.check(cmd != ("vec", ()) and st != ("vec", ()), "interfaces are released only after the callback has run", WHERE, z)
                if k == "activate":
                    ctx.check(skip == T.FALSE, "asynchronous updates are enabled again before the controller becomes active", WHERE, z + f" skip={T.show(skip)}")
                    if is_async and running:
                        first = [i for i, e in enumerate(ev) if e[0] == "callback"][0]
                        ctx.check(any(e[:2] == ("async", "reset_variables") for e in ev[:first]), "a running asynchronous handler is reset before the controller becomes active", WHERE, z)
                        ctx.check(run is True, "activation keeps the asynchronous thread running", WHERE, z)
                ctx.check(lid == T.c(mid[k]), "the cached lifecycle id is the state of the node when a callback runs", WHERE, z + f" has {T.show(lid)} instead of {mid[k]}")
    if not n:
        ctx.undecided("callbacks", "no callback understood")


def configured(ctx):
    """configure()"""
    n = 0
    for is_async in (False, True):
        for rate in (-1, 0, 50):
            for pol in ("detached", "other"):
                for prio, before in ((-100, False), (50, False), (-100, True)) if is_async else ((-100, False), (-100, True)):
                    I = B.interp(ctx, params={"update_rate": rate, "is_async": is_async, "thread_priority": prio},
                                 policy=("enum", DET, 1) if pol == "detached" else FEED)
                    # configured before, as an asynchronous controller whose thread was stopped at cleanup
                    s = B.start(I, UNCONF, handler=before, is_async=before)
                    I.wr(s, ("fld", IMPL, "ctrl_itf_params_"), params(100, 100))
                    outs = I.run(fn(ctx.db, "configure", 0), state=s)
                    ctx.saw_interp(I, (1,))
                    z = ("configured again, " if before else "") + f"update_rate={rate}, is_async={is_async}" + (f", {pol} policy" if is_async else "")
                    for kind, s, v in outs:
                        if not good(ctx, "configure", kind, s):
                            continue
                        if kind != "ret":
                            ctx.undecided("configure", f"{z}: ends with {kind} {s.exc}")
                            continue
                        n += 1
                        ev = B.events(s)
                        node = [e for e in ev if e[0] == "node"]
                        if v is not None and v[0] == "loc":
                            v = I.read(s, v[1])
                        if rate < 0 or (is_async and pol == "detached"):
                            ctx.check(not node, "a negative rate or a detached scheduling policy keeps the controller unconfigured", WHERE, z)
                            ctx.check(not any(e[0] == "async" and e[1] == "start_thread" for e in ev), "no asynchronous thread is started for a controller that is not configured", WHERE, z)
                            continue
                        ctx.check([e[1] for e in node] == ["configure"], "a valid configuration configures the node exactly once", WHERE, z + f": {[e[1] for e in node]}")
                        if len(node) != 1:
                            continue
                        mk = [i for i, e in enumerate(ev) if e[0] == "async"]
                        if is_async:
                            b = [e for e in ev if e[:2] == ("async", "init")]
                            ctx.check(len(b) == 1 and any(x[0] == "fn" and x[1] == BASE + "update" or x[0] == "lam" for x in T.subterms(b[0][2][0])),
                                      "an asynchronous controller runs its own update() in the handler", WHERE, z)
                            ctx.check(node[0][3][0] is True, "the asynchronous handler runs when the node is configured", WHERE, z)
                        else:
                            ctx.check(not mk, "a synchronous controller has no asynchronous handler", WHERE, z)
                        st = I.state_of(v)
                        if st is None:
                            ctx.undecided("configure", f"{z}: returns {T.show(v) if v else v}")
                        else:
                            ctx.check(st[2] == T.c(s.tags["lc"]), "configure returns the state the node ended in", WHERE, z + f": returns {T.show(st[2])}, node is in {s.tags['lc']}")
                            lid = I.read(s, ("fld", IMPL, "lifecycle_id_"))
                            ctx.check(lid == T.c(s.tags["lc"]), "after configuring, the cached lifecycle id is the state of the node", WHERE, z + f": cached {T.show(lid)}, node {s.tags['lc']}")
                            isa = I.read(s, ("fld", IMPL, "is_async_"))
                            ctx.check(isa == T.c(is_async), "whether a controller runs asynchronously follows its parameter", WHERE, z)
    if not n:
        ctx.undecided("configure", "no path understood")


def interfaces(ctx):
    """assign / release, prepare / cancel, cached id, destructor"""
    db = ctx.db
    I = B.interp(ctx)
    s = B.start(I, INACTIVE)
    new = {f: ("vec", (("sym", f"new {f} 0"), ("sym", f"new {f} 1"))) for f in ("command", "state")}
    for kind, s2, v in I.run(fn(db, "assign_interfaces"), args={0: new["command"], 1: new["state"]}, state=s):
        for f in ("command", "state"):
            got = I.read(s2, ("fld", ("this",), f + "_interfaces_"))
            if kind != "ret" or got is None or got[0] != "vec":
                ctx.undecided("assign_interfaces", f"{kind}: {T.show(got)}"[:200])
            else:
                ctx.check(got == new[f], "assigned interfaces replace the ones held before, each in its own list", WHERE, f"assign_interfaces leaves {T.show(got)} in {f}_interfaces_")
    ctx.saw_interp(I, (1,))
    I = B.interp(ctx)
    for kind, s2, v in I.run(fn(db, "release_interfaces"), state=B.start(I, INACTIVE)):
        for f in ("command", "state"):
            got = I.read(s2, ("fld", ("this",), f + "_interfaces_"))
            if kind != "ret" or got is None or got[0] != "vec":
                ctx.undecided("release_interfaces", f"{kind}: {T.show(got)}"[:200])
            else:
                ctx.check(got == ("vec", ()), "releasing the interfaces leaves none of them held", WHERE, f"release_interfaces leaves {T.show(got)} in {f}_interfaces_")
    ctx.saw_interp(I, (1,))
    for running in (True, False):
        I = B.interp(ctx)
        waited = []
        for kind, s2, v in I.run(fn(db, "prepare_for_deactivation"), state=B.start(I, ACTIVE, handler=True, running=running, is_async=True)):
            ev = [e for e in B.events(s2) if e[0] == "async"]
            skip = I.read(s2, ("fld", IMPL, "skip_async_triggers_"))
            ctx.check(skip == T.TRUE, "preparing a deactivation stops further asynchronous updates", WHERE, f"skip flag is {T.show(skip)}")
            w = [e for e in ev if e[1].startswith("wait_for_trigger_cycle")]
            if running:
                ctx.check(len(w) >= 1, "preparing a deactivation waits for the asynchronous update that is running", WHERE, "no wait")
                for e in w:
                    ctx.check(e[3] is None or e[3] == T.TRUE, "updates are stopped before waiting for the last one", WHERE, f"skip flag is {T.show(e[3])} while waiting")
        ctx.saw_interp(I, (1,))
    I = B.interp(ctx)
    for kind, s2, v in I.run(fn(db, "cancel_deactivation"), state=B.start(I, ACTIVE, handler=True, running=True, is_async=True, skip=True)):
        ctx.check(I.read(s2, ("fld", IMPL, "skip_async_triggers_")) == T.FALSE, "cancelling a deactivation lets asynchronous updates continue", WHERE, "skip flag stays set")
    ctx.saw_interp(I, (1,))
    for cached, lc in ((10, INACTIVE), (11, UNCONF), (12, FINAL), (13, ACTIVE), (14, INACTIVE), (15, UNCONF), (ACTIVE, ACTIVE), (INACTIVE, INACTIVE), (UNCONF, UNCONF), (FINAL, FINAL)):
        I = B.interp(ctx)
        s = B.start(I, lc)
        I.wr(s, ("fld", IMPL, "lifecycle_id_"), T.c(cached))
        for kind, s2, v in I.run(fn(db, "get_lifecycle_id"), state=s):
            if kind != "ret" or not T.isc(v):
                ctx.undecided("get_lifecycle_id", f"{kind} {T.show(v) if isinstance(v, tuple) else v}"[:200])
            else:
                ctx.check(v == T.c(lc), "the lifecycle id of a controller that is not in a transition is the state of its node", WHERE, f"cached {cached}, node in {lc}: reports {v[1]}")
        ctx.saw_interp(I, (1,))
    ds = [f for f in db.F.values() if f["q"] == BASE + "~ControllerInterfaceBase"] if hasattr(db, "F") else db.find(BASE + "~ControllerInterfaceBase")
    if not ds:
        ctx.undecided("destruction", "no destructor found")
        return
    for lc in (UNCONF, INACTIVE, ACTIVE, FINAL, None):
        I = B.interp(ctx)
        s = B.start(I, lc or UNCONF)
        if lc is None:
            I.wr(s, ("fld", IMPL, "node_"), T.c(None))
        for kind, s2, v in I.run(ds[0], state=s):
            if not good(ctx, "destruction", kind, s2):
                continue
            ops = [e[1] for e in B.events(s2) if e[0] == "node"]
            ctx.check(kind != "exc", "a controller can be destroyed in every state", WHERE, f"state {lc}: {s2.exc}")
            if lc is not None:
                ctx.check(ops == ([] if lc == FINAL else ["shutdown"]), "destroying a controller shuts it down unless it is finalized", WHERE, f"state {lc}: {ops}")
        ctx.saw_interp(I, (1,))


def triggered(ctx):
    """trigger_update()"""
    db = ctx.db
    TIME, PERIOD = ("sym", "time"), ("sym", "period")
    n = 0
    for is_async in (False, True):
        for skip in (False, True):
            I = B.interp(ctx, user=("update",))
            s = B.start(I, ACTIVE, handler=is_async, running=is_async, is_async=is_async, skip=skip)
            for kind, s2, v in I.run(fn(db, "trigger_update"), args={0: TIME, 1: PERIOD}, state=s):
                z = f"asynchronous={is_async}, being deactivated={skip}"
                if kind != "ret":
                    ctx.undecided("trigger_update", f"{z}: {kind} {s2.exc}")
                    continue
                n += 1
                ev = B.events(s2)
                up = [e for e in ev if e[0] == "update"]
                tr = [e for e in ev if e[:2] == ("async", "trigger_async_callback")]
                f = lambda x: T.field(I.read(s2, v[1]) if v[0] == 'loc' else v, x)
                if is_async:
                    ctx.check(not up, "an asynchronous controller is not updated by the control loop itself", WHERE, z)
                    ctx.check(len(tr) == (0 if skip else 1), "an asynchronous update is triggered once per cycle, and never while the controller is being deactivated", WHERE, z + f": {len(tr)} triggers")
                    if skip and f("successful") is not None and T.isc(f("successful")):
                        ctx.check(f("successful") == T.FALSE, "a skipped update is reported as not done", WHERE, z)
                    if len(tr) == 1 and not skip:
                        ctx.check(tuple(tr[0][2][:2]) == (TIME, PERIOD), "an update gets the time and period of the cycle", WHERE, z)
                        for x, want in (("successful", ("pairof", 0)), ("result", ("pairof", 1))):
                            got = f(x)
                            if got is not None and got[0] in ("pairof", "enum", "c") and not any(isinstance(y, tuple) and ("pairof", 1) in y for y in s2.facts):
                                ctx.check(got == want, "the outcome of an update is passed on", WHERE, z + f": {x} is {got}")
                            else:
                                ctx.undecided("trigger_update", f"{z}: {x} is {T.show(got) if got else got}"[:200])
                else:
                    ctx.check(len(up) == 1, "a synchronous controller is updated exactly once per trigger", WHERE, z + f": {len(up)} updates")
                    if len(up) == 1:
                        ctx.check(tuple(up[0][1]) == (TIME, PERIOD), "an update gets the time and period of the cycle", WHERE, z + f": {up[0][1]}")
                        got = f("result")
                        if got is None:
                            ctx.undecided("trigger_update", f"{z}: result unknown")
                        else:
                            ctx.check(got == ("sym", "result of update"), "the outcome of an update is passed on", WHERE, z + f": result is {T.show(got)}")
                        got = f("successful")
                        if got is not None and T.isc(got):
                            ctx.check(got == T.TRUE, "a synchronous update is reported as done", WHERE, z)
            ctx.saw_interp(I, (1,))
    if not n:
        ctx.undecided("trigger_update", "no path understood")


def run(ctx):
    ctx.where = WHERE
    ctx.rule("init binds every lifecycle callback of the node exactly once; each of them calls the controller's callback of the same name with the previous state, returns its result, and sees the cached lifecycle id equal to the state of the node; "
             "the asynchronous thread is stopped before cleanup, shutdown and error callbacks, the skip flag is cleared (and a running handler reset) before activation, the interfaces are released after shutdown and error; "
             "configure rejects negative rates and detached scheduling without touching the node, starts the handler bound to update() iff asynchronous, before configuring the node once; assign/release, prepare/cancel, the cached id, trigger_update and the destructor are interpreted in every state")
    ctx.assumption("the lifecycle node reports the state it is in, and runs the registered callback of a transition (rclcpp_lifecycle)")
    ctx.section("init", lambda c: [bound(c, I, s) for I, s in initialised(c)[:1]], ctx)
    for f in (configured, interfaces, triggered):
        ctx.section(f.__name__, f, ctx)
