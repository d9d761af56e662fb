"""P14 a loaned interface is released exactly once; its accessors retry a bounded number of times without blocking."""
from engine import terms as T
from engine import handles as H
from engine.util import *


def run(ctx):
    db = ctx.db
    ctx.rule("Loans are created, moved and destroyed in drivers that are interpreted abstractly with destructors run at the end of each scope; the calls of the "
             "release action are counted on every path. Value accesses are interpreted for 0 to 3 tries with every lock outcome open: the number of lock requests, "
             "their kind and the reported result are checked on every path.")
    REL, MARK = ("sym", "release"), ("sym", "mark")

    def kind(f):
        return "LoanedCommandInterface" if "CommandInterface" in f["params"][0]["t"] else "LoanedStateInterface"

    def calls(s):
        return [e[1] for e in H.events(s) if e[0] == "call"]

    def dst(f):
        k = kind(f)
        return where(db.one(f"{k}::~{k}"))

    def moves():
        for f in H.driver(db, "loan_moves"):
            for m in (0, 1, 2):
                I, outs = H.run(ctx, f, moves=m)
                for k, s, v in outs:
                    n = calls(s).count(REL)
                    if k != "ret":
                        ctx.bad("destroying loans never raises", dst(f), f"{kind(f)}: raises {v}", "loan-throw")
                        continue
                    if I.truth(s, REL) is False:
                        ctx.check(n == 0, "a missing release action is not run", dst(f), f"{kind(f)} moved {m} times", "null-release")
                    else:
                        ctx.check(n == 1, "the release action runs exactly once per loan", dst(f), f"{kind(f)} moved {m} times: released {n} times", "release-count")

    def used():
        for name, cls in (("loan_used", "LoanedCommandInterface"), ("loan_state_used", "LoanedStateInterface")):
            f = H.driver(db, name)[0]
            I, outs = H.run(ctx, f)
            for k, s, v in outs:
                if k == "ret" and I.truth(s, REL) is not False:
                    n = calls(s).count(REL)
                    ctx.check(n == 1, "the release action runs exactly once per loan, whatever accesses took place", dst(f), f"{cls}: released {n} times", "release-used")

    def inner():
        for f in H.driver(db, "loan_inner"):
            I, outs = H.run(ctx, f)
            for k, s, v in outs:
                if k != "ret" or I.truth(s, REL) is False:
                    continue
                ctx.check(calls(s) == [MARK, REL], "the release action runs when the last holder is destroyed, not before", dst(f),
                          f"{kind(f)}: order of actions is {[T.show(x) for x in calls(s)]}", "release-order")
        for f in H.driver(db, "loan_plain"):
            I, outs = H.run(ctx, f)
            for k, s, v in outs:
                ctx.check(k == "ret" and not calls(s), "a loan without release action is destroyed quietly", dst(f), f"{kind(f)}: {k}", "plain")

    def access(name, fnq):
        for ty, f in H.by_type(db, name).items():
            d = [x for x, t in H.TYPES.items() if t == ty][0]
            W = where(db.one(fnq))
            for n in (0, 1, 2, 3):
                I, outs = H.run(ctx, f, type=d, tries=n)
                if not outs:
                    ctx.undecided(f"{name} {n}", "no path")
                for k, s, v in outs:
                    if k == "throw":
                        ctx.bad("accessing a value of the declared type through a loan does not raise", W, f"{d}: {v}", f"{name}-throw")
                        continue
                    ev = [e for e in H.events(s) if e[0] == "lock" and not e[5]]
                    tries = [e for e in ev if e[2].startswith("try")]
                    for e in ev:
                        q = strip_targs(e[3])
                        blocking = e[2].startswith("lock") and not driver_access(I, s, e)
                        ctx.check(not blocking, "an access through a loan never blocks on a lock", f"{q}:{e[4]}", f"{d}: {e[2]}", f"{name}-block")
                    ctx.check(not any(e[0] == "sleep" for e in H.events(s)), "an access through a loan never sleeps", W, d, f"{name}-sleep")
                    ctx.check(len(tries) <= max(n, 1), "an access through a loan tries at most the given number of times", W, f"{d}: {len(tries)} tries for a maximum of {n}", f"{name}-tries")
                    ok = v[1] if T.isc(v) else I.truth(s, v)
                    res = [b for a, b in s.facts.items() if a[0] == "owns"]
                    if True in res:
                        ctx.check(ok is True, "an access that got the lock is reported as successful", W, f"{d}: returns {T.show(v)}", f"{name}-success")
                        if ok is True:
                            x = H.final(s, "out")
                            ctx.check(x == ("sym", "v"), "an access through a loan transfers the value", W, f"{d}: {T.show(x) if x else 'nothing'}", f"{name}-value")
                    elif res:
                        ctx.check(ok is False, "an access that never got the lock is reported as failed", W, f"{d}, {len(tries)} tries: returns {T.show(v)}", f"{name}-failure")
                        ctx.check(len(tries) >= n, "an access gives up only after the given number of tries", W, f"{d}: {len(tries)} of {n}", f"{name}-giveup")
                # the loop must be left on every path: unlimited retries show up as a missing failure path
                fails = [1 for k, s, v in outs if k == "ret" and T.isc(v) and v[1] is False]
                ctx.check(bool(fails), "an access through a loan gives up eventually", W, f"{d}: no path gives up after {n} tries", f"{name}-bounded")

    def driver_access(I, s, e):
        # the driver's own preparation and read-back use the waiting accessors of the plain interface
        return strip_targs(e[3]).split("::")[-1] in ("get_value", "set_value") and e[2].startswith("lock") and e[0] == "lock" and waits(e)

    def waits(e):
        f = [x for x in db.fns.values() if strip_targs(x["q"]) == strip_targs(e[3]) and len(x["params"]) == 2 and x["params"][1]["t"] == "bool"]
        return bool(f)

    ctx.pmap([("moves", moves, ()), ("accesses and destruction", used, ()), ("holders", inner, ()), ("loaned set", access, ("loan_set", "LoanedCommandInterface::set_value")),
              ("loaned get", access, ("loan_get", "LoanedCommandInterface::get_optional")),
              ("loaned state get", access, ("loan_get_state", "LoanedStateInterface::get_optional"))])
