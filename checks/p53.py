"""P53 accepted switch requests lead to a consistent set of controllers."""
import itertools
from engine import terms as T
from engine import cm as C
from engine import switch as S
from engine.cm import Ctl, UNCONF, INACTIVE, ACTIVE, NAMES, lst, events
from engine.util import *

BEST_EFFORT, STRICT = 1, 2
NAME = "switched controllers"
HW = {"j/x", "j/y", "j/s"}

# controllers as name: (command interfaces, state interfaces, chainable)
WORLDS = {
    "competing": {"a": (("b/r",), (), False), "b": (("j/x",), ("j/s",), True), "d": (("j/x",), (), False)},
    "chain": {"a": (("b/r",), (), False), "b": (("c/r",), (), True), "c": (("j/x",), (), True)},
    "two users": {"p": (("f/r1",), (), False), "q": (("f/r2",), (), False), "f": (("j/x",), (), True)},
    "one reference": {"p": (("f/r1",), (), False), "q": (("f/r1",), (), False), "f": (("j/x",), (), True)},
    "observer": {"p": (("f/r1",), (), False), "o": ((), ("f/s",), False), "f": (("j/x",), (), True)},
    "joint": {"p": (("f/r", "g/r"), (), False), "f": (("j/x",), (), True), "g": (("j/y",), (), True)},
    "missing hardware": {"p": (("j/x",), ("gone/s",), False), "q": (("j/x",), (), False), "r": (("j/y", "gone/c"), (), False)},
    "observed chain": {"p": (("f/r",), ("g/s",), False), "f": (("j/x",), (), True), "g": (("j/y",), (), True)},
}
ORDERS = {"missing hardware": ("pqr", "rqp"), "competing": ("abd", "dba"), "chain": ("abc", "cba"), "two users": ("pqf", "fqp"), "one reference": ("pqf",), "observer": ("pof", "fop"), "joint": ("pfg", "gfp"), "observed chain": ("pfg", "gfp")}


def owner(w, itf):
    n = itf.split("/")[0]
    return n if n in w else None


def chained(w, active):
    """controllers whose references are used by an active controller"""
    return {owner(w, i) for n in active for i in w[n][0] if owner(w, i)}


def consistent(w, active):
    need = {owner(w, i) for n in active for i in w[n][0] + w[n][1] if owner(w, i)}
    cmds = [i for n in active for i in w[n][0]]
    return need <= set(active) and len(cmds) == len(set(cmds)) and not missing(w, active)


def missing(w, active):
    """hardware interfaces that do not exist"""
    return {i for n in active for i in w[n][0] + w[n][1] if not owner(w, i) and i not in HW}


def subsets(xs):
    return [c for k in range(len(xs) + 1) for c in itertools.combinations(xs, k)]


def one(ctx, world, order, active, unconf, act, de, strictness):
    w = WORLDS[world]
    ch = chained(w, active)
    ctls = [Ctl(n, UNCONF if n == unconf else ACTIVE if n in active else INACTIVE, cmd=w[n][0], st=w[n][1], chainable=w[n][2], chained=n in ch) for n in order]
    I, outs = S.request(ctx, ctls, act, de, strictness, True, plain=True, fixed_avail=HW)
    ctx.saw_interp(I)
    what = f"{'STRICT' if strictness == STRICT else 'BEST_EFFORT'} request to activate {list(act)} and deactivate {list(de)}, active {list(active)}" + (f", {unconf} unconfigured" if unconf else "") + f" ({world}, list {order})"
    results = set()
    for kind, s, v in outs:
        if kind not in ("ret", "throw"):
            ctx.undecided(NAME, f"{what}: {kind}")
            continue
        sw = [e for e in events(s) if e[0] == "do_switch" and e[1] == T.c(True)]
        if kind == "throw":
            ctx.bad("requests do not throw", ctx.where, f"{what}: throws {s.exc}")
            continue
        if not sw:
            results.add(None)
            continue
        L = {k: lst(x) for k, x in sw[-1][3]}
        if any(x is None for x in L.values()):
            ctx.undecided(NAME, f"{what}: request lists are not concrete")
            continue
        A, D = L["activate_request"], L["deactivate_request"]
        to, fr = L["to_chained_mode_request"], L["from_chained_mode_request"]
        results.add((tuple(sorted(A)), tuple(sorted(D))))
        after = set(active) - set(D) | set(A)
        now = set(ch) - set(D) | set(to)
        now -= {n for n in fr if n not in to}
        both = set(to) & set(fr)
        want = chained(w, after)
        ok = lambda c, m, kind: ctx.check(c, kind, ctx.where, f"{what}: {m}")
        ok(len(set(A)) == len(A) and len(set(D)) == len(D), f"controllers are listed twice: {A}, {D}", "each controller is listed once")
        ok(all(n in D if n in active else n != unconf for n in A), f"activates {A} of which some are active or unconfigured", "only inactive or restarted controllers are activated")
        ok(set(D) <= set(active), f"deactivates {D} of which some are not active", "only active controllers are deactivated")
        need = {owner(w, i) for n in after for i in w[n][0] + w[n][1] if owner(w, i)}
        ok(need <= after, f"leaves {sorted(after)} active without {sorted(need - after)} whose interfaces they use", "controllers whose interfaces are used are active")
        ok(not missing(w, after), f"leaves {sorted(after)} active without {sorted(missing(w, after))}", "required interfaces are available")
        ok(not both and {n for n in now if n in after} == {n for n in want if w[n][2]}, f"{sorted(after)} are active but {sorted(n for n in now if n in after)} in chained mode instead of {sorted(want)}", "controllers are in chained mode while their references are used")
        moved = {n for n in set(active) & after if (n in ch) != (n in want)}
        ok(all(n in A and n in D for n in moved), f"{sorted(moved)} change their chained mode without being restarted", "controllers are restarted to change their chained mode")
        cmds = [i for n in sorted(after) for i in w[n][0]]
        ok(len(cmds) == len(set(cmds)), f"{sorted(after)} are active with the same command interface", "command interfaces have one user")
        ok(sorted(L["activate_command_interface_request"]) == sorted(i for n in A for i in w[n][0]), f"the hardware is asked to start {L['activate_command_interface_request']} for {A}", "command interfaces to start")
        ok(sorted(L["deactivate_command_interface_request"]) == sorted(i for n in D for i in w[n][0]), f"the hardware is asked to stop {L['deactivate_command_interface_request']} for {D}", "command interfaces to stop")
        restarts = set(A) & set(D)
        ok(set(A) <= set(act) | restarts and set(D) <= set(de) | restarts, f"switches {A} and {D} that were not requested", "only requested controllers are switched")
        if strictness == STRICT:
            ok(set(act) <= set(A) and set(de) <= set(D), f"switches only {A} and {D}", "STRICT switches all controllers")
    if not (set(act) | set(de)) <= set(w):
        if strictness == STRICT:
            ctx.check(results <= {None}, "requests for unknown controllers are rejected", ctx.where, f"{what}: is accepted")
        return results
    if strictness == STRICT and set(act) & set(de) and set(de) <= set(active) and not unconf:
        # a restart: everybody who uses a restarted controller is restarted with it or not involved
        goal = set(active) - set(de) | set(act)
        users = {n for n in w for i in w[n][0] + w[n][1] if owner(w, i) in set(act) & set(de)}
        if set(act) <= set(de) and users <= set(act) | (set(w) - set(active)) and consistent(w, goal) and set(act) == set(de):
            ctx.check(None not in results, "controllers can be restarted", ctx.where, f"{what}: is rejected although the controllers can be restarted")
    if strictness == STRICT and not set(act) & set(de) and not unconf:
        goal = set(active) - set(de) | set(act)
        if set(act) & set(active) or set(de) - set(active) or not consistent(w, goal):
            ctx.check(results <= {None}, "inconsistent requests are rejected", ctx.where, f"{what}: is accepted")
        elif act or de:
            ctx.check(None not in results, "consistent requests are accepted", ctx.where, f"{what}: is rejected although the controllers can be switched")
    return results


def world(ctx, name, order, active, unconf):
    w = WORLDS[name]
    quick = ctx.tier == "quick"
    for n in order:
        for act, de in ((("unknown", n), ()), ((n, "unknown"), ()), ((), ("unknown", n)), ((), (n, "unknown"))) if not unconf else ():
            for strictness in (STRICT, BEST_EFFORT):
                one(ctx, name, order, active, unconf, act, de, strictness)
    for act in subsets(order):
        for de in subsets(order):
            if not act and not de:
                continue
            acts = [act, act[::-1]] if len(act) > 1 else [act]
            des = [de, de[::-1]] if len(de) > 1 and (not quick or not act) else [de]
            strict = one(ctx, name, order, active, unconf, acts[0], des[0], STRICT)
            for p in acts:
                for d in des:
                    if not quick and (p, d) != (acts[0], des[0]):
                        r = one(ctx, name, order, active, unconf, p, d, STRICT)
                        ctx.check(r == strict, "order of the request", ctx.where, f"the result of a STRICT request depends on its order: activate {list(p)}, deactivate {list(d)}, active {list(active)} ({name})")
                    best = one(ctx, name, order, active, unconf, p, d, BEST_EFFORT)
                    if None not in strict and len(strict) == 1:
                        ctx.check(best == strict, "BEST_EFFORT does what STRICT does", ctx.where, f"BEST_EFFORT activates and deactivates {best} where STRICT does {strict}: activate {list(p)}, deactivate {list(d)}, active {list(active)} ({name})")


def run(ctx):
    db = ctx.db
    ctx.rule("Switch requests are interpreted abstractly for every request over small sets of controllers that cover competing claims, chains, shared and joint references and exported states, in every consistent initial state, in several orders of the request and of the controller list, with STRICT and BEST_EFFORT; "
             "the lists handed to the switch are compared with the requirements on the resulting set of controllers.")
    ctx.assumption("interface names contain a '/'; switching works as requested (P29, P31, P51 decide what happens if not); which controllers precede or follow another is read from their interface names")
    f = db.one(C.CM + "switch_controller_cb")
    ctx.where = where(f)
    tasks = []
    quick = ctx.tier == "quick"
    for name, w in WORLDS.items():
        for order in ORDERS[name][:1 if quick else None]:
            states = [a for a in subsets(order) if consistent(w, a)]
            for a in states:
                tasks.append((f"{name} {order} {a}", world, (ctx, name, order, a, None)))
            for u in order:
                for a in states[:1] if quick else states:
                    if u not in a:
                        tasks.append((f"{name} {order} {a} {u}", world, (ctx, name, order, a, u)))
    ctx.pmap(tasks)
