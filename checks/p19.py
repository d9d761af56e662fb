"""P19 command interfaces are claimed exclusively and returned."""
from engine import terms as T
from engine import rm as R
from engine.util import *


class Claim(R.RmInterp):
    """tracks on which acquisition of its lock the claimed flags were read and written"""
    flagnames = ("claimed_command_interface_map_",)

    def flag(self, loc):
        while loc[0] in ("idx", "fld", "nth"):
            if loc[0] == "fld" and loc[2] in self.flagnames:
                return True
            loc = loc[1]
        return False

    def on_lock(self, s, mutex, mode, node):
        super().on_lock(s, mutex, mode, node)
        if all(m != mutex for m, _ in s.locks):
            self.ev_(s, "acquire", mutex)

    def on_read(self, s, loc, node):
        if self.flag(loc) and self.stack and not s.tags.get("probing"):
            self.ev_(s, "get", loc, tuple(m for m, sh in s.locks))

    def on_write(self, s, loc, val, node):
        if self.flag(loc) and self.stack:
            self.ev_(s, "set", loc, val, tuple(m for m, sh in s.locks if not sh))

    def on_call(self, s, call):
        if call.name == "probe":
            self.ev_(s, "probe", call.args[0][1])
            s.tags["claims"] = s.tags.get("claims", ()) + (self.flags(s),)
            return [(s, T.NULL)]
        if call.recv is not None and self.flag(call.recv) and call.name in ("at", "find", "count", "contains", "value_or"):
            self.ev_(s, "get", call.recv, tuple(m for m, sh in s.locks))
        return super().on_call(s, call)

    def flags(self, s):
        m = self.rbase(s, R.fld("claimed_command_interface_map_")) if False else Exact.read(self, s, R.fld("claimed_command_interface_map_"))
        out = []
        for x in "abc":
            v = T.index(m, T.c(x))
            out.append(v[1] if v[0] == "c" else None)
        return tuple(out)


def run(ctx):
    db = ctx.db
    ctx.rule("Drivers that claim, hold, return and claim again command and state interfaces of the resource manager (free, already claimed, unavailable and unknown ones) "
             "are interpreted abstractly with the destructors of the loans run: exclusive hand-out, the claimed flags before, during and after, and the lock under which the "
             "check and the mark happen are examined on every path.")
    ctx.assumption("interfaces are a, b (available) and c (existing but unavailable); the names stand for any distinct names")
    WC = where(db.one(R.RM + "claim_command_interface"))
    WS = where(db.one(R.RM + "claim_state_interface"))

    def go(name, args, claimed=(False, False, False)):
        comps = [R.Comp("actuator", "hw0", cmd=("a", "b"), st=("a", "b"))]
        I = Claim(db, comps)
        s = R.start(I, comps)
        m = ("vec", ())
        for x, b in zip("abc", claimed):
            m = ("mapset", m, T.c(x), T.c(b))
        R.put(I, s, "claimed_command_interface_map_", m)
        for f in ("command_interface_map_", "state_interface_map_"):
            m = ("vec", ())
            for x in "abc":
                m = ("mapset", m, T.c(x), ("addr", ("sym", "interface " + x)))
            R.put(I, s, f, m)
        f = db.one("verif_tr::" + name)
        a = {0: ("loc", ("this",))}
        for i, x in enumerate(args):
            a[i + 1] = x
        outs = I.run(f, args=a, state=s)
        ctx.saw_interp(I, outs)
        return I, outs

    def probes(s):
        return [e[1] for e in R.events(s) if e[0] == "probe"]

    def val(s, n):
        v = s.heap.get(("sym", n))
        return v[1] if v is not None and v[0] == "c" else None

    def locked(I, outs, what):
        for k, s, v in outs:
            epoch, checked, lockset = {}, None, None
            for e in R.events(s):
                if e[0] == "acquire":
                    epoch[e[1]] = epoch.get(e[1], 0) + 1
                elif e[0] == "get":
                    checked = {m: epoch[m] for m in e[2] if m in epoch}
                elif e[0] == "set":
                    ctx.check(e[3], "claimed flags change only under a lock", WC, f"{what}: no lock is held when a flag is set to {T.show(e[2])}", "flag-lock")
                    if e[2] == T.TRUE:
                        same = [m for m in e[3] if checked and checked.get(m) == epoch.get(m)]
                        ctx.check(same, "checking and marking a claim happen under one uninterrupted lock", WC, what, "claim-atomic")

    def free():
        for key in "ab":
            out = [("loc", ("sym", n)) for n in ("before", "during", "after")]
            I, outs = go("rm_claim", [T.c(key)] + out)
            other = "ba".index(key)
            done = False
            for k, s, v in outs:
                if k != "ret":
                    ctx.bad("an available, free interface is handed out", WC, f"claim of {key}: raises {v}", "free")
                    continue
                done = True
                got = [val(s, n) for n in ("before", "during", "after")]
                ctx.check(got == [False, True, False], "an interface is claimed exactly while its loan exists", WC, f"claim of {key}: claimed before, during and after the loan: {got}", "claimed-while")
                cl = s.tags.get("claims", ())
                if len(cl) == 2:
                    ctx.check(all(c[other] is False for c in cl), "claiming does not affect other interfaces", WC, f"claim of {key}: flags {cl}", "others")
            if not done:
                ctx.undecided("claim", "no path hands out a free interface")
            locked(I, outs, f"claim of {key}")

    def exclusive():
        for k1, k2, ok in (("a", "a", False), ("a", "b", True), ("b", "b", False), ("b", "a", True)):
            I, outs = go("rm_claim_two", [T.c(k1), T.c(k2)])
            for k, s, v in outs:
                p = probes(s)
                what = f"claim of {k2} while {k1} is held"
                if ok:
                    ctx.check(k == "ret" and p == [1, 2], "a free interface is handed out while others are claimed", WC, what, "two-free")
                else:
                    ctx.check(2 not in p and k == "throw", "a claimed interface is not handed out again", WC, what, "exclusive")
            locked(I, outs, f"claim of {k2} while {k1} is held")

    def again():
        I, outs = go("rm_claim_again", [T.c("a")])
        for k, s, v in outs:
            ctx.check(k == "ret" and probes(s) == [1, 2], "a returned interface can be claimed again", WC, f"outcome {k}", "again")

    def refused():
        for key, claimed, why in (("c", (False, False, False), "unavailable"), ("z", (False, False, False), "unknown"), ("a", (True, False, False), "claimed")):
            out = [("loc", ("sym", n)) for n in ("before", "during", "after")]
            I, outs = go("rm_claim", [T.c(key)] + out, claimed)
            for k, s, v in outs:
                ctx.check(k == "throw" and not probes(s), f"an {why} interface is not handed out", WC, f"claim of an {why} interface succeeds", f"refused-{why}")
                sets = [e for e in R.events(s) if e[0] == "set"]
                ctx.check(not sets, "a refused claim changes nothing", WC, f"claim of an {why} interface sets a flag to {[T.show(e[2]) for e in sets]}", f"refused-{why}-set")

    def states():
        I, outs = go("rm_claim_state", [T.c("a")])
        for k, s, v in outs:
            ctx.check(k == "ret" and probes(s) == [1, 2], "available state interfaces are handed out any number of times", WS, f"outcome {k}", "state")
        for key, why in (("c", "unavailable"), ("z", "unknown")):
            I, outs = go("rm_claim_state", [T.c(key)])
            for k, s, v in outs:
                ctx.check(k == "throw" and not probes(s), f"an {why} state interface is not handed out", WS, "claim succeeds", f"state-{why}")

    ctx.pmap([("free interfaces", free, ()), ("exclusive claims", exclusive, ()), ("claims again", again, ()), ("refused claims", refused, ()), ("state interfaces", states, ())])
