"""P29 rejected switch requests leave nothing behind."""
from engine import terms as T
from engine import cm as C
from engine import switch as S
from engine.cm import Ctl, UNCONF, INACTIVE, ACTIVE, FINAL, NAMES, lst, strs, events
from engine.util import *

HW = {"j/x", "j/y", "j/s"}
STRICTNESS = {0: "default", 1: "BEST_EFFORT", 2: "STRICT", 3: "AUTO", 4: "FORCE_AUTO"}


def pending_lists(db):
    """the fields of the pending request that hold names"""
    r = db.rec(C.CM + "SwitchParams")
    return [f["n"] for f in r["fields"] if f["t"].replace(" ", "").startswith("std::vector<std::")]


def scenarios():
    A, I = ACTIVE, INACTIVE
    plain = lambda sa=I, sb=A, asy=False: [Ctl("a", sa, cmd=["j/x"], st=["j/s"], is_async=asy), Ctl("b", sb, cmd=["j/y"], is_async=asy)]
    chain = lambda sp=I, sf=I, ch=False, fb=(), asy=False: [Ctl("p", sp, cmd=["f/r"], st=["f/e"], fallbacks=fb, is_async=asy), Ctl("f", sf, cmd=["j/x"], chainable=True, chained=ch, is_async=asy)]
    yield "activation", plain(), ["a"], []
    yield "deactivation", plain(), [], ["b"]
    yield "deactivation of an asynchronous controller", plain(asy=True), [], ["b"]
    yield "exchange", plain(asy=True), ["a"], ["b"]
    yield "restart", plain(asy=True), ["b"], ["b"]
    yield "an empty request", plain(), [], []
    yield "activation of an unknown controller", plain(), ["x"], []
    yield "activation of an unknown controller after a known one", plain(), ["a", "x"], []
    yield "activation of an unknown controller before a known one", plain(), ["x", "a"], ["b"]
    yield "deactivation of an unknown controller", plain(), ["a"], ["x"]
    yield "deactivation of a known and an unknown controller", plain(), [], ["b", "x"]
    yield "activation of an active controller", plain(sa=A), ["a"], []
    yield "activation of an active and an inactive controller", plain(), ["b", "a"], []
    yield "activation of an unconfigured controller", plain(sa=UNCONF), ["a"], ["b"]
    yield "activation of a finalized controller", plain(sa=FINAL), ["a"], ["b"]
    yield "deactivation of an inactive controller", plain(), [], ["a"]
    yield "deactivation of an inactive and an active controller", plain(asy=True), [], ["a", "b"]
    yield "activation of a chain", chain(), ["p", "f"], []
    yield "activation of a chain in the other order", chain(), ["f", "p"], []
    yield "activation of a preceding controller alone", chain(), ["p"], []
    yield "activation of a preceding controller", chain(sf=A), ["p"], []
    yield "activation of a chain without the fallback", chain(fb=("zz",)), ["p", "f"], []
    yield "activation of a chain with an unconfigured member", chain(sf=UNCONF), ["p", "f"], []
    yield "activation of a chain and of an active controller", chain() + [Ctl("b", A, cmd=["j/y"])], ["p", "f", "b"], []
    yield "activation of a chain that competes with an active controller", chain() + [Ctl("b", A, cmd=["j/x"])], ["p", "f"], []
    yield "activation of a chain and deactivation of an inactive controller", chain() + [Ctl("b", I, cmd=["j/y"])], ["p", "f"], ["b"]
    yield "deactivation of a preceding controller", chain(A, A, True, asy=True), [], ["p"]
    yield "deactivation of a used controller", chain(A, A, True, asy=True), [], ["f"]
    yield "deactivation of a chain", chain(A, A, True, asy=True), [], ["p", "f"]
    yield "restart of a chain", chain(A, A, True, asy=True), ["p", "f"], ["p", "f"]
    yield "activation of controllers that compete", [Ctl("a", I, cmd=["j/x"]), Ctl("b", I, cmd=["j/x"])], ["a", "b"], []
    yield "activation of a controller whose interface is not available", [Ctl("a", I, cmd=["k/x"]), Ctl("b", A, cmd=["j/x"], is_async=True)], ["a"], ["b"]


def one(ctx, name, ctls, act, de, strictness, asap, flags, lists):
    def extra(I, s):
        for f in lists:
            I.wr(s, ("fld", C.SWITCH, f), strs())
    I, outs = S.request(ctx, ctls, act, de, strictness, asap, flags=flags, fixed_avail=HW, extra=extra)
    ctx.saw_interp(I)
    W, Z = ctx.where, f"{name}, {STRICTNESS[strictness]}, {'as soon as possible' if asap else 'by the requester'}"
    for kind, s, v in outs:
        ev = events(s)
        if kind == "throw":
            ctx.undecided(Z, f"ends with an exception {s.exc}")
            continue
        if kind != "ret":
            ctx.undecided(Z, f"ends with {kind}")
            continue
        ok = T.eq(v, I.ret_enum("OK"))
        if not T.isc(ok):
            ctx.undecided(Z, f"result {T.show(v)}")
            continue
        ok = ok == T.TRUE
        left = {f: I.read(s, ("fld", C.SWITCH, f)) for f in lists}
        res = [e for e in ev if e[0] == "res" and e[1] == "prepare"]
        executed = any(e[0] in ("manage", "carried") for e in ev)
        timeout = any(e[0] == "timeout" for e in ev) or (not executed and any(e[0] == "ready?" for e in ev))
        stage = "is rejected by the hardware" if res and not res[-1][2] else "times out" if timeout else "was carried out" if executed else "is rejected" if not ok else "has nothing to do"

        def rule(c, m):
            ctx.check(c, f"{m} when the request {stage}", W, Z)
        for f, x in left.items():
            if lst(x) is None and x[0] != "vec":
                ctx.undecided(Z, f"{f} is {T.show(x)[:80]}")
            else:
                rule(x == ("vec", ()), f"{f} is empty")
        d = I.read(s, ("fld", C.SWITCH, "do_switch"))
        rule(d == T.FALSE, "no switch is pending")
        rule(not (res and not res[-1][2]) or not ok and not executed, "an error is returned and nothing switched")
        rule(not timeout or not ok, "an error is returned")
        if any(e[0] == "timeout" for e in ev):
            i = max(k for k, e in enumerate(ev) if e[0] == "timeout")
            cl = [e for e in ev[i:] if e[0] == "do_switch"]
            rule(not cl or any("mutex" in m for m in cl[0][2]), "the request is withdrawn under the lock of the switch")
        if not executed and ok:
            rule(not any(e[0] in ("mode", "wait", "trigger", "do_switch") and (e[0] != "do_switch" or e[1] == T.TRUE) for e in ev), "neither the hardware nor the loop is asked for anything")
            if strictness == 2:
                rule(not act and not de, "a STRICT request is not reported as done")
        if not executed:
            rule(not any(e[0] == "publish" for e in ev), "no controller list is published")
        for k, e in enumerate(ev):
            if e[0] == "do_switch" and e[1] == T.TRUE:
                names = dict(e[3])
                asked = names["activate_command_interface_request"] != ("vec", ()) or names["deactivate_command_interface_request"] != ("vec", ())
                rule(not asked or any(x[0] == "res" and x[1] == "prepare" and x[2] for x in ev[:k]), "the hardware is prepared before")
        st = dict(s.tags["st"])
        activated = set(lst(next((dict(e[3])["activate_request"] for e in ev[::-1] if e[0] == "do_switch" and e[1] == T.TRUE), ("vec", ()))) or ()) if any(e == ("carried", True) for e in ev) else set()
        for c in ctls:
            if st[c.name] == ACTIVE and c.name not in activated:
                trig = [e[2] for e in ev if e[0] == "trigger" and e[1] == c.name]
                rule(not trig or trig[-1], f"a controller that stays active is triggered again")
        for (n, k), on in I.exported(s).items():
            if st.get(n) in (INACTIVE, UNCONF, FINAL):
                ctl = next(c for c in ctls if c.name == n)
                rule(not on or n in activated, f"{k} interfaces of an inactive controller are unavailable")
                rule(ctl.state != UNCONF, "exports of unconfigured controllers are not touched")


def group(ctx, i, flags, lists):
    name, ctls, act, de = list(scenarios())[i]
    for st in STRICTNESS:
        for asap in (True, False):
            one(ctx, name, ctls, act, de, st, asap, flags, lists)


def run(ctx):
    db = ctx.db
    ctx.rule("Switch requests are interpreted abstractly for every strictness and both kinds of hand-over, with every answer of the hardware and of the control loop (carried out, failed, timed out); on every exit the recorded request, "
             "the availability of exported interfaces, the triggers of asynchronous controllers and the requests to the hardware are compared with what a request at that stage may leave.")
    ctx.assumption("interface names contain a '/'; the interpretation of the switch itself is P31 and P51, whether a request is accepted P53")
    f = db.one(C.CM + "switch_controller_cb")
    ctx.where = where(f)
    lists = pending_lists(db)
    ctx.check(set(S.LISTS) <= set(lists), "the pending request", ctx.where, f"fields of names {lists}") if lists else ctx.undecided("the pending request", "no fields")
    flags = S.trigger_flags(db)
    ctx.pmap([(n, group, (ctx, i, flags, lists)) for i, (n, *_) in enumerate(scenarios())])
