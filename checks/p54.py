"""P54 controllers are activated only if their fallback controllers can take over."""
import itertools
from engine import terms as T
from engine import cm as C
from engine import switch as S
from engine.cm import Ctl, UNCONF, INACTIVE, ACTIVE, FINAL, NAMES, lst, events
from engine.util import *

STRICT, BEST_EFFORT = 2, 1


def accepted(ctx, ctls, act, avail, strictness, exports=None, ekind=None, de=()):
    """the results of activating `act`: set of the controllers the switch is started for (None: rejected)"""
    def hook(I, s, call):
        if call.name in ("get_controller_reference_interface_names", "get_controller_exported_state_interface_names") and exports is not None and T.isc(call.args[0]):
            mine = [x for x in exports if x.startswith(call.args[0][1] + "/")]
            return [(s, C.strs(*(mine if ("reference" in call.name) == (ekind == "cmd") else [call.args[0][1] + "/other"])))]
        return None
    I, outs = S.request(ctx, ctls, act, list(de), strictness, True, plain=True, fixed_avail=avail, hooks=[hook])
    ctx.saw_interp(I)
    res = set()
    for kind, s, v in outs:
        if kind == "throw":
            res.add("throw")
            continue
        if kind != "ret":
            res.add("?")
            continue
        sw = [e for e in events(s) if e[0] == "do_switch" and e[1] == T.c(True)]
        a = lst(dict(sw[-1][3])["activate_request"]) if sw else None
        ok = T.eq(v, I.ret_enum("OK"))
        if not T.isc(ok):
            res.add("?")
        elif strictness == STRICT:
            res.add(bool(sw) and ok == T.TRUE)
        else:
            res.add(tuple(a) if a is not None else ())
    return res


def expect(ctx, kind, what, res, want):
    if "?" in res:
        ctx.undecided(kind, what)
    else:
        ctx.check("throw" not in res, "requests do not throw", ctx.where, what)
        if want is not None:
            ctx.check(res <= {want}, kind, ctx.where, f"{what}: {'is accepted' if True in res else 'is rejected' if False in res else 'activates ' + str(sorted(res))}")


def states(ctx):
    """existence and state of the fallback controllers"""
    for k in (1, 2):
        for st in itertools.product((None, UNCONF, INACTIVE, ACTIVE, FINAL), repeat=k):
            names = ["g", "h"][:k]
            ctls = [Ctl("a", INACTIVE, cmd=["j/x"], fallbacks=tuple(names))] + [Ctl(n, x) for n, x in zip(names, st) if x is not None] + [Ctl("other", INACTIVE, cmd=["j/y"])]
            what = "activation of a controller with fallbacks " + ", ".join(f"{n} {'not loaded' if x is None else NAMES.get(x, x)}" for n, x in zip(names, st))
            good = all(x in (INACTIVE, ACTIVE) for x in st)
            expect(ctx, "a controller is only activated if its fallbacks are configured", what, accepted(ctx, ctls, ["a"], {"j/x", "j/y"}, STRICT), good)
            again = [Ctl("a", ACTIVE, cmd=["j/x"], fallbacks=tuple(names))] + ctls[1:]
            expect(ctx, "a controller is only activated if its fallbacks are configured", "re" + what, accepted(ctx, again, ["a"], {"j/x", "j/y"}, STRICT, de=("a",)), good)
            expect(ctx, "a controller is only activated if its fallbacks are configured", what + " with BEST_EFFORT", accepted(ctx, ctls, ["a", "other"], {"j/x", "j/y"}, BEST_EFFORT), ("a", "other") if good else ("other",))


def interfaces(ctx):
    """availability of hardware interfaces the fallbacks need"""
    for kind in ("cmd", "st"):
        for k in (1, 2):
            for av in itertools.product((True, False), repeat=2 * k):
                names = ["g", "h"][:k]
                itfs = {n: [f"j/{n}1", f"j/{n}2"] for n in names}
                flat = [i for n in names for i in itfs[n]]
                avail = {"j/x"} | {i for i, b in zip(flat, av) if b}
                ctls = [Ctl("a", INACTIVE, cmd=["j/x"], fallbacks=tuple(names))] + [Ctl(n, INACTIVE, **{kind: itfs[n]}) for n in names]
                what = f"activation of a controller whose fallbacks need {'command' if kind == 'cmd' else 'state'} interfaces {flat}, available are {sorted(avail - {'j/x'})}"
                expect(ctx, "a controller is only activated if the interfaces of its fallbacks are available", what, accepted(ctx, ctls, ["a"], avail, STRICT), all(av))


def chains(ctx):
    """fallbacks that use interfaces of other controllers"""
    for kind in ("cmd", "st"):
        for listed in ((), ("f",), ("f", "g"), ("g", "f")):
            for fstate in (INACTIVE, ACTIVE):
                for exported in (True, False):
                    fb = listed if "g" in listed else listed + ("g",)
                    ctls = [Ctl("a", INACTIVE, cmd=["j/x"], fallbacks=fb), Ctl("g", INACTIVE, **{kind: ["f/r"]}), Ctl("f", fstate, cmd=["j/y"], chainable=True)]
                    what = f"activation of a controller with fallbacks {list(fb)}, g uses {'a reference' if kind == 'cmd' else 'an exported state'} of f, which is {NAMES.get(fstate, fstate)} and {'exports it' if exported else 'does not export it'}"
                    res = accepted(ctx, ctls, ["a"], {"j/x", "j/y"}, STRICT, ["f/r"] if exported else ["f/q"], kind)
                    want = None
                    if fstate == INACTIVE:
                        want = bool("f" in listed and exported)
                    elif exported:
                        want = True
                    expect(ctx, "a controller is only activated if its fallbacks can be chained", what, res, want)


def follow(ctx):
    """the fallbacks of every activated controller are considered, those of others are not"""
    for bad in ("a", "b", "c"):
        ctls = [Ctl(n, INACTIVE, cmd=[f"j/{n}"], fallbacks=("g",) if n == bad else ()) for n in "abc"] + [Ctl("g", UNCONF)]
        for act in (["a", "b"], ["b", "a"]):
            what = f"activation of {act}, the fallback of {bad} is unconfigured"
            expect(ctx, "the fallbacks of every activated controller are considered", what, accepted(ctx, ctls, act, {"j/a", "j/b", "j/c"}, STRICT), bad not in act)
    for act in (["p", "f"], ["f", "p"]):
        ctls = [Ctl("p", INACTIVE, cmd=["f/r"]), Ctl("f", INACTIVE, cmd=["j/y"], chainable=True, fallbacks=("g",)), Ctl("g", UNCONF)]
        res = accepted(ctx, ctls, act, {"j/y"}, BEST_EFFORT)
        expect(ctx, "controllers that depend on a controller with unusable fallbacks are not activated", f"activation of {act} with BEST_EFFORT, the fallback of f is unconfigured and p uses f", res, ())


def run(ctx):
    f = ctx.db.one(C.CM + "switch_controller_cb")
    ctx.where = where(f)
    ctx.rule("Activation requests are interpreted abstractly for every existence and state of the fallback controllers, every availability of their interfaces, and every state and membership of the controllers their interfaces belong to; accepted requests are compared with the requirements on fallbacks.")
    ctx.assumption("the controllers of the request and their interfaces are usable (P53); fallbacks configured by names (P34 decides which names a configuration means)")
    ctx.pmap([("states", states, (ctx,)), ("interfaces", interfaces, (ctx,)), ("chains", chains, (ctx,)), ("requests", follow, (ctx,))])
