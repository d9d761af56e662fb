"""P34 controllers' interface requirements are resolved to what was asked."""
import itertools
import re
from engine import terms as T
from engine import cm as C
from engine import switch as S
from engine.cm import Ctl, INACTIVE, ACTIVE, lst, events
from engine.util import *

CMDS = ["j1/position", "j1/velocity", "j2/position", "sensor/position_raw"]
STATES = ["j1/position", "j2/position", "j2/velocity", "imu/x/position"]
TYPES = ("NONE", "ALL", "INDIVIDUAL", "INDIVIDUAL_BEST_EFFORT", "REGEX")
NAMES = {
    "NONE": [()],
    "ALL": [()],
    "INDIVIDUAL": [(), ("j2/position", "j1/position"), ("j1/position", "j2/position")],
    "INDIVIDUAL_BEST_EFFORT": [("j2/position", "j1/velocity", "absent/x", "j2/velocity", "j1/position"), ("absent/x",), ()],
    "REGEX": [("j[0-9]/position",), ("position",), (".*/velocity", "j2/position"), (".*position", "j1/velocity"), ("absent.*",), ()],
}


def wanted(t, names, avail):
    if t == "NONE":
        return []
    if t == "ALL":
        return list(avail)
    if t == "INDIVIDUAL":
        return list(names)
    if t == "INDIVIDUAL_BEST_EFFORT":
        return [n for n in names if n in avail]
    return [a for a in avail if any(re.fullmatch(n, a) for n in names)]


def same(t, got, want):
    return got == want if t.startswith("INDIVIDUAL") else sorted(got) == sorted(want)


def text(v):
    """the constant string inside a value"""
    found = {x[1] for x in T.subterms(v) if x[0] == "c" and isinstance(x[1], str)}
    return found.pop() if len(found) == 1 else None


def regex(I, s, call):
    """std::regex over constant patterns"""
    if call.name in ("regex_match", "regex_search") and len(call.args) >= 2:
        subject, pattern = call.args[0], call.args[1]
        if len(call.args) > 2 and call.args[2][0] != "c" and "regex" not in T.show(pattern):
            return None
        p, x = text(pattern), text(subject)
        if p is None or x is None:
            return None
        try:
            return [(s, T.c(bool((re.fullmatch if call.name == "regex_match" else re.search)(p, x))))]
        except re.error:
            return None
    return None


def config(ctx, t, kind):
    """interfaces a controller is given and the hardware is prepared for"""
    for names in NAMES[t]:
        for other in ("NONE", "INDIVIDUAL"):
            sa = (kind == "command")
            mine = dict(cmd=names, ctype=t, st=("j2/velocity",) if other == "INDIVIDUAL" else (), stype=other) if sa else dict(st=names, stype=t, cmd=("j1/velocity",) if other == "INDIVIDUAL" else (), ctype=other)
            what = f"{kind} interfaces {t} {list(names)}"
            want = wanted(t, names, CMDS if sa else STATES)

            def setup(I, s):
                I.avail_cmd, I.avail_st = list(CMDS), list(STATES)
            I, outs = C.run(ctx, "activate_controllers", [Ctl("a", INACTIVE, throws=False, **mine)], {0: ("loc", C.RTLIST), 1: C.strs("a"), 2: T.c(1)}, setup, claimed=(), rm_throws=False, hooks=[regex])
            ctx.saw_interp(I)
            for k, s, v in outs:
                asg = [e for e in events(s) if e[0] == "assign"]
                if k != "ret" or not asg:
                    if k == "ret" and not any(T.is_num(x) is None for x in ()):
                        ctx.undecided(what, "the controller is not given interfaces" if not asg else str(k))
                    else:
                        ctx.undecided(what, f"{k} {s.exc}")
                    continue
                for e in asg:
                    if any(x[0] != "vec" or any(y[0] != "sym" for y in x[1]) for x in e[3]):
                        ctx.undecided(what, "assigned interfaces are not tracked")
                        continue
                    got = [x[1][len("loan of "):] for x in e[3][0 if sa else 1][1]]
                    ctx.check(same(t, got, want), f"a controller is given the {kind} interfaces it configured", ctx.where, f"{what}: is given {got} instead of {want}")
                    rest = [x[1][len("loan of "):] for x in e[3][1 if sa else 0][1]]
                    exp = list(mine["st"] if sa else mine["cmd"])
                    ctx.check(rest == exp, "both kinds of interfaces are independent", ctx.where, f"{what}: the other kind is {rest} instead of {exp}")
            if not sa:
                continue
            for active in (False, True):
                I, outs = S.request(ctx, [Ctl("a", ACTIVE if active else INACTIVE, **mine)], [] if active else ["a"], ["a"] if active else [], 2, True, extra=setup, plain=True, fixed_avail=set(CMDS) | set(STATES), rm_throws=False, hooks=[regex])
                ctx.saw_interp(I)
                for k, s, v in outs:
                    sw = [e for e in events(s) if e[0] == "do_switch" and e[1] == T.TRUE]
                    if k != "ret" or not sw:
                        ctx.undecided(what, f"the request ends with {k} without a switch")
                        continue
                    L = dict(sw[-1][3])
                    got = lst(L["deactivate_command_interface_request" if active else "activate_command_interface_request"])
                    if got is None:
                        ctx.undecided(what, "the interfaces of the switch are not tracked")
                        continue
                    ctx.check(same(t, got, want), "the hardware is asked to switch the interfaces the controller configured", ctx.where, f"{what}: {'deactivation' if active else 'activation'} asks for {got} instead of {want}")


def run(ctx):
    ctx.rule("Activations and switch requests of a controller are interpreted abstractly for every kind of configuration of both kinds of interfaces, with present, absent and (partially) matching names; the interfaces it is given and the hardware is asked to switch are compared with the configured ones.")
    ctx.assumption("regular expressions are compared on patterns that ECMAScript and Python read alike; a configuration naming an interface several times is refused when the controller is configured (P30)")
    ctx.where = where(ctx.db.one(C.CM + "activate_controllers"))
    ctx.pmap([(f"{t} {k}", config, (ctx, t, k)) for t in TYPES for k in ("command", "state")])
