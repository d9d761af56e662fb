"""P56 a controller's update rate is the closest achievable one to what was asked, never above the manager's."""
from engine import terms as T
from engine import base as B
from engine.base import *
from engine.util import *
from checks.p36 import params, fn, FEED, WHERE


def want(cm, r):
    if r > cm:
        return cm
    if cm % r == 0:
        return r
    return cm // int(cm / r + 0.5)


def start(ctx, cm, rate):
    """states after init()"""
    I = B.interp(ctx, policy=FEED)
    s = B.start(I, UNCONF)
    I.wr(s, ("fld", IMPL, "node_"), T.c(None))
    out = []
    for kind, s2, v in I.run(fn(ctx.db, "init", 1), args={0: params(cm, rate)}, state=s):
        if kind == "ret" and v == ("enum", "controller_interface::return_type::OK", I.rt["OK"]):
            out.append(s2)
    ctx.saw_interp(I, out)
    return out


def step(ctx, s, lc, r, is_async=False):
    """(rate, state) after configure() with the parameter update_rate = r"""
    out = []
    I = B.interp(ctx, policy=FEED, params={"update_rate": r, "is_async": is_async, "thread_priority": -100}, ends=(INACTIVE,))
    s = s.copy()
    s.tags["lc"], s.tags["ev"] = lc, ()
    for kind, s2, v in I.run(fn(ctx.db, "configure", 0), state=s):
        if kind != "ret" or any(isinstance(x, tuple) and x[0] in ("fresh", "mut") for x in s2.facts):
            ctx.undecided("rate", f"update_rate={r}: {kind} {s2.exc}")
            continue
        for k2, s3, v2 in I.run(fn(ctx.db, "get_update_rate", 0), state=s2.copy()):
            if k2 == "ret" and T.isc(v2):
                out.append((v2[1], s2))
            else:
                ctx.undecided("rate", f"update_rate={r}: get_update_rate gives {T.show(v2) if isinstance(v2, tuple) else v2}"[:200])
    ctx.saw_interp(I, out)
    return out


def one(ctx, cm, rates, rate0=None):
    for s in start(ctx, cm, cm if rate0 is None else rate0):
        if rate0 == 0:
            pass
        for r1 in rates:
            for got, s1 in step(ctx, s, UNCONF, r1):
                z = f"controller manager at {cm} Hz, update_rate {r1}"
                ctx.check(got <= cm, "a controller never claims to be updated more often than the controller manager runs", WHERE, f"{z}: rate {got}")
                ctx.check(got == want(cm, r1), "the update rate is the requested one if it divides the manager's, else the closest achievable one", WHERE, f"{z}: rate {got} instead of {want(cm, r1)}")
                for r2 in rates:
                    for got2, s2 in step(ctx, s1, UNCONF, r2):
                        z2 = f"{z}, cleaned up, then update_rate {r2}"
                        ctx.check(got2 == want(cm, r2), "configuring again applies the newly requested rate whatever was configured before", WHERE, f"{z2}: rate {got2} instead of {want(cm, r2)}")
                for got3, s3 in step(ctx, s1, UNCONF, -5):
                    ctx.check(got3 == got, "a rejected rate changes nothing", WHERE, f"{z}, then update_rate -5: rate {got3}")
                for lc in (INACTIVE, ACTIVE):
                    for got4, s4 in step(ctx, s1, lc, rates[0]):
                        ctx.check(got4 == got, "the rate of a configured controller does not change", WHERE, f"{z}, configure() while in state {lc} with update_rate {rates[0]}: rate {got4}")


def unset(ctx):
    """only the controller's own rate is known at init: it stands for the manager's"""
    for s in start(ctx, 0, 200):
        for r, w in ((200, 200), (100, 100), (400, 200), (150, 200)):
            for got, s1 in step(ctx, s, UNCONF, r):
                ctx.check(got == w, "without a manager rate the controller's own rate is the upper bound", WHERE, f"init with update_rate 200, parameter {r}: rate {got} instead of {w}")


def run(ctx):
    ctx.where = WHERE
    ctx.rule("init() and configure() are interpreted for manager rates {1, 7, 100, 1000, 5000} and requested rates that divide, do not divide, equal and exceed them, for every ordered pair of requests of one controller (configure, clean up, configure): "
             "the resulting rate equals the request if it divides the manager's rate, manager // round(manager/request) otherwise, and the manager's rate if the request is higher")
    ctx.assumption("a requested rate of 0 (no rate of its own) and a manager rate of 0 are outside the statement")
    sets = {1: (1, 2, 5), 7: (1, 2, 3, 5, 7, 8), 100: (1, 3, 30, 50, 51, 70, 99, 100, 101, 1000), 1000: (1, 333, 500, 999, 1000, 2001), 5000: (623, 1250, 2812, 5000, 5001)}
    if ctx.tier == "thorough":
        sets = {**sets, 250: tuple(range(1, 260, 7)), 100: tuple(range(1, 103, 3)) + (1000,)}
    ctx.pmap([(f"{cm} Hz", one, (ctx, cm, rs)) for cm, rs in sets.items()] + [("manager rate unknown", unset, (ctx,))])
