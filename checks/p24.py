"""P24 component state requests map to the right transitions."""
from engine import terms as T
from engine import rm as R
from engine.util import *
from engine.hw import UNKNOWN, UNCONF, INACTIVE, ACTIVE, FINAL, NAMES, LABELS, num

GOAL = {"configure": INACTIVE, "activate": ACTIVE, "deactivate": INACTIVE, "cleanup": UNCONF, "shutdown": FINAL}
SEQ = {  # target: {current: steps}
    UNCONF: {UNCONF: [], INACTIVE: ["cleanup"], ACTIVE: ["deactivate", "cleanup"]},
    INACTIVE: {UNCONF: ["configure"], INACTIVE: [], ACTIVE: ["deactivate"]},
    ACTIVE: {UNCONF: ["configure", "activate"], INACTIVE: ["activate"], ACTIVE: []},
    FINAL: {UNCONF: ["shutdown"], INACTIVE: ["shutdown"], ACTIVE: ["deactivate", "shutdown"], FINAL: []},
}


def run(ctx):
    ctx.rule("A state request of the resource manager is interpreted abstractly for every component kind, current and target state (given by number or by label) with "
             "every outcome of every transition, including exceptions: the transitions run, their order, where the sequence stops and what is reported are compared with "
             "the documented table on every path.")
    W = where(ctx.db.one(R.RM + "set_component_state"))

    def one(kind, cur, tgt, by):
        def setup(I, s):
            v = I.state_value(tgt) if by == "id" else ("make", "rclcpp_lifecycle::State", T.c(0), T.c(LABELS[tgt]))
            I.wr(s, ("sym", "tgt"), v)
        comps = [R.Comp(kind, "hw0", state=cur, cmd=() if kind == "sensor" else ("c0",), st=("s0",), group="g"), R.Comp("system", "hw1", cmd=("c1",), st=("s1",))]
        I, outs = R.run(ctx, "set_component_state", comps, {0: T.c("hw0"), 1: ("loc", ("sym", "tgt"))}, setup)
        req = f"{kind} in state {NAMES[cur]} asked for {NAMES[tgt]}" + (" by label" if by == "label" else "")
        steps = SEQ.get(tgt, {}).get(cur)
        good = False
        for k, s, v in outs:
            ev = R.events(s)
            ctx.check(not [e for e in ev if e[2] != "hw0"], "a state request concerns only the named component", W, f"{req}: {[e for e in ev if e[2] != 'hw0']}", "other")
            ran = [e[1] for e in ev if e[0] == "life"]
            res = [e[3] for e in ev if e[0] == "res"]
            if k != "ret":
                continue
            ok = num(v) == I.rt["OK"]
            if num(v) is None:
                ctx.undecided(req, f"reports {T.show(v)}")
                continue
            if steps is None:
                ctx.check(not ran, "an impossible request runs no transition", W, f"{req}: runs {ran}", "impossible-run")
                ctx.check(not ok, "an impossible request is rejected", W, req, "impossible-ok")
                continue
            n = 0
            for st in steps:
                n += 1
                if n > len(res) or res[n - 1] != GOAL[st]:
                    break
            done = len(res) >= len(steps) and all(r == GOAL[st] for r, st in zip(res, steps))
            want = steps[:n]
            outc = [x if isinstance(x, str) else NAMES[x] for x in res]
            if not ctx.check(ran == want, "a state request runs exactly the documented transitions up to the first failing one", W,
                             f"{req}: runs {ran} with outcomes {outc} instead of {want}", f"steps-{NAMES[cur]}-{NAMES[tgt]}"):
                continue
            ctx.check(ok == done, "a state request reports success exactly if every step succeeded", W, f"{req}: {ran} with outcomes {outc} reports {'OK' if ok else 'ERROR'}",
                      f"result-{NAMES[cur]}-{NAMES[tgt]}")
            good = good or (ok and done)
        if steps is not None and not good:
            ctx.undecided(req, "no successful path found")

    def unknown():
        def setup(I, s):
            I.wr(s, ("sym", "tgt"), I.state_value(ACTIVE))
        I, outs = R.run(ctx, "set_component_state", [R.Comp("system", "hw1", state=INACTIVE)], {0: T.c("hw0"), 1: ("loc", ("sym", "tgt"))}, setup)
        for k, s, v in outs:
            ctx.check(not R.events(s), "a request for an unknown component runs nothing", W, f"{R.events(s)}", "unknown-run")
            if k == "ret":
                ctx.check(num(v) == I.rt["ERROR"], "a request for an unknown component is rejected", W, T.show(v), "unknown-ok")

    jobs = [("unknown component", unknown, ())]
    for kind in ("actuator", "sensor", "system"):
        for cur in NAMES:
            for by in ("id", "label"):
                jobs.append((f"{kind} {NAMES[cur]} {by}", lambda kind=kind, cur=cur, by=by: [one(kind, cur, tgt, by) for tgt in NAMES if not (by == "label" and tgt == 0)], ()))
    ctx.pmap(jobs)
