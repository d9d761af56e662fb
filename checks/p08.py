"""P08 joint limiters: command windows and their enforcement, compared with their specification in an order domain."""
import itertools

from engine import terms as T
from engine.util import *
from engine.order import Polyhedron, Oracle, explore, is_nan, is_inf, same
from engine.interp import Explosion

S = lambda n: ("sym", n)
LIM = S("limits")
F = lambda n: ("fld", LIM, n)
MINP, MAXP, MV, MA, MD, MJ, ME = [F(n) for n in ("min_position", "max_position", "max_velocity", "max_acceleration", "max_deceleration", "max_jerk", "max_effort")]
DT = S("dt")
INF = ("inf",)
NINF = ("neg", INF)
Z = T.c(0)
QS = ["position", "velocity", "effort", "acceleration", "jerk"]
FLAG = {"position": "has_position_limits", "velocity": "has_velocity_limits", "effort": "has_effort_limits",
        "acceleration": "has_acceleration_limits", "jerk": "has_jerk_limits"}
FLAGS = ["has_position_limits", "has_velocity_limits", "has_acceleration_limits", "has_deceleration_limits", "has_jerk_limits", "has_effort_limits"]


def base(extra=()):
    p = Polyhedron(pos=[DT], nonneg=[MV, MA, MD, MJ, ME], scale=[DT])
    p.add(MINP, MAXP, False)
    for a, b, s in extra:
        p.add(a, b, s)
    return p


class Ord(Exact):
    """comparisons decided in the order domain; facts about infinity and NaN"""

    def setup(self, base_, lock=None):
        self.base, self.cache, self.lockseen = base_, {}, lock
        return self

    def poly_of(self, s):
        key = frozenset((a, b) for a, b in s.facts.items() if a[0] in ("<", "<=", "=="))
        p = self.cache.get(key)
        if p is None:
            p = self.cache[key] = self.base.clone().facts(dict(key))
        return p

    def numeric(self, t):
        return not (T.isc(t) and not T.is_num(t)) and t[0] not in ("enum", "addr", "new", "lam", "end", "find", "size", "vec", "some", "nullopt", "cat")

    def truth_hook(self, s, t):
        if t[0] in ("<", "<="):
            if t[1][0] == "size" or t[2][0] == "size":
                return None
            return self.poly_of(s).le(t[1], t[2], t[0] == "<")
        if t[0] == "==" and self.numeric(t[1]) and self.numeric(t[2]):
            a, b = t[1], t[2]
            if is_nan(a) or is_nan(b):
                return False
            if is_inf(a) or is_inf(b):
                return is_inf(a) == is_inf(b)
            p = self.poly_of(s)
            if p.le(a, b) is False or p.le(b, a) is False:
                return False
            if p.le(a, b) and p.le(b, a):
                return True
        if t[0] == "isnan":
            return is_nan(t[1])
        if t[0] == "isfinite":
            return not is_nan(t[1]) and not is_inf(t[1])
        if t[0] == "isinf":
            return is_inf(t[1]) != 0
        return None

    def on_call(self, s, call):
        if call.name == "copysign" and len(call.args) == 2:
            x, y = call.args
            out = []
            for s2, b in self.branch(s, T.lt(y, Z)):
                out.append((s2, T.umin(x) if b else x))
            return out
        if call.name in ("fabs", "abs") and len(call.args) == 1 and call.node.get("u") not in self.db.fns:
            x = call.args[0]
            if T.is_num(x):
                return [(s, T.c(abs(x[1])))]
            return [(s2, T.umin(x) if b else x) for s2, b in self.branch(s, T.lt(x, Z))]
        if call.name == "infinity":
            return [(s, INF)]
        return None


def lim_state(flags, extra=None):
    s = State()
    for f, b in flags.items():
        s.heap[("fld", LIM, f)] = T.c(b)
    s.subs.add(LIM)
    for f, v in (extra or {}).items():
        s.heap[("fld", LIM, f)] = v
    return s


class V:
    """specification of the windows; terms only"""

    @staticmethod
    def position(o, fl, av, ap, prev, tol):
        minp, maxp = (MINP, MAXP) if fl["has_position_limits"] else (NINF, INF)
        if ap is not None and fl["has_position_limits"]:
            if o.lt(T.add(maxp, T.c(tol)), ap) or o.lt(ap, T.sub(minp, T.c(tol))):
                return "throw"
        lo, hi = minp, maxp
        if fl["has_velocity_limits"]:
            v = MV
            if fl["has_acceleration_limits"]:
                v = o.min(MV, T.add(Z if av is None else T.umin(av) if o.lt(av, Z) else av, T.mul(MA, DT)))
            d = T.mul(v, DT)
            ref = prev if prev is not None else ap
            if ref is not None:
                lo = o.max(o.min(T.sub(ref, d), hi), lo)
                hi = o.min(o.max(T.add(ref, d), lo), hi)
        return lo, hi

    @staticmethod
    def velocity(o, fl, des, ap, prev, tol):
        if not fl["has_velocity_limits"]:
            return NINF, INF
        lo, hi = T.umin(MV), MV
        if fl["has_position_limits"] and ap is not None:
            mx, mn = T.add(MAXP, T.c(tol)), T.sub(MINP, T.c(tol))
            lo = o.max(T.div(T.sub(MINP, ap), DT), lo)
            hi = o.min(T.div(T.sub(MAXP, ap), DT), hi)
            if o.lt(MAXP, ap) or o.lt(ap, MINP):
                if o.p.equal(ap, mx) or o.p.equal(ap, mn):
                    return None
                if (o.lt(MINP, ap) and o.lt(ap, mx) and o.le(Z, des)) or (o.lt(ap, MAXP) and o.lt(mn, ap) and o.le(des, Z)):
                    lo = hi = Z
                elif o.lt(mx, ap) or o.lt(ap, mn):
                    lo = hi = Z
        if fl["has_acceleration_limits"] and prev is not None:
            d = T.mul(MA, DT)
            lo = o.max(T.sub(prev, d), lo)
            hi = o.min(T.add(prev, d), hi)
        if o.lt(hi, lo):
            lo, hi = hi, lo
        return o.clamp(lo, T.umin(MV), MV), o.clamp(hi, T.umin(MV), MV)

    @staticmethod
    def effort(o, fl, ap, av):
        if not fl["has_effort_limits"]:
            return NINF, INF
        lo, hi = T.umin(ME), ME
        if fl["has_position_limits"] and ap is not None and av is not None:
            if o.le(ap, MINP) and o.le(av, Z):
                lo = Z
            elif o.le(MAXP, ap) and o.le(Z, av):
                hi = Z
        if fl["has_velocity_limits"] and av is not None:
            if o.lt(av, T.umin(MV)):
                lo = Z
            elif o.lt(MV, av):
                hi = Z
        return lo, hi

    @staticmethod
    def acceleration(o, fl, des, av):
        if fl["has_deceleration_limits"] and av is not None and ((o.lt(des, Z) and o.lt(Z, av)) or (o.lt(Z, des) and o.lt(av, Z))):
            return T.umin(MD), MD
        if fl["has_acceleration_limits"]:
            return T.umin(MA), MA
        return NINF, INF


def run(ctx):
    db = ctx.db
    ctx.rule("The window functions and the enforcement functions are interpreted for every combination of enabled limits and available states with symbolic "
             "values; on every path the returned window, the command left behind and the reported flag are compared with the specification evaluated "
             "in a polyhedral order domain under the facts of that path.")
    ctx.assumption("limit values are non-negative and ordered, real arithmetic (no rounding)")
    tols = {}
    for n in ("OUT_OF_BOUNDS_EXCEPTION_TOLERANCE", "POSITION_BOUNDS_TOLERANCE"):
        g = [v for k, v in db.gvars.items() if k.endswith("::" + n)]
        tols[n] = float(g[0]["init"]["v"]) if g and g[0].get("init", {}).get("k") == "float" else None

    def fn(name):
        return [f for f in db.find("joint_limits::" + name) if f.get("body")][0]

    def optv(b, n):
        return ("some", S(n)) if b else ("nullopt",)

    def window(name, cfgs, spec, mk):
        f = fn(name)
        W = where(f)
        for flags, pres in cfgs:
            fl = {k: flags.get(k, False) for k in FLAGS}
            vals = {k: (S(k) if b else None) for k, b in pres.items()}
            nan = {}
            if not fl["has_position_limits"]:
                nan = {"min_position": ("nan",), "max_position": ("nan",)}
            I = Ord(db).setup(base())
            outs = I.run(f, args=mk(pres), state=lim_state(fl, nan))
            ctx.saw_interp(I, outs)
            tag = "+".join(k[4:-7] for k, b in fl.items() if b) or "no"
            tag = f"{tag} limits, known: {', '.join(k for k, b in pres.items() if b) or 'nothing'}"
            for k, s, v in outs:
                p = I.poly_of(s)
                for want, o in explore(p, lambda o: spec(o, fl, vals)):
                    if want is None or o.p.unknown or not o.p.consistent():
                        continue
                    if want == "throw" or k == "throw":
                        ctx.check((want == "throw") == (k == "throw"), f"{name}: raises exactly if the measured position is out of its limits by more than the tolerance",
                                  W, f"with {tag}: {'no exception' if k != 'throw' else 'exception'} for {facts_txt(s)}", name + "-throw")
                        continue
                    lo, hi = T.field(v, "lower_limit"), T.field(v, "upper_limit")
                    lo, hi = NINF if is_nan(lo) else lo, INF if is_nan(hi) else hi     # a comparison with NaN never limits
                    good = o.p.equal(lo, want[0]) and o.p.equal(hi, want[1])
                    if not good and o.p.unknown:
                        continue
                    ctx.check(good, f"{name}: the window is the one the enabled limits permit", W,
                              f"with {tag}: [{T.show(lo)}, {T.show(hi)}] instead of [{T.show(want[0])}, {T.show(want[1])}] where {facts_txt(s)}", name)

    def facts_txt(s):
        return " & ".join(("" if b is True else "!") + T.show(a) for a, b in s.facts.items() if a[0] in ("<", "<=", "=="))[:400]

    def combos(names, fixed=()):
        for bs in itertools.product((False, True), repeat=len(names)):
            yield dict(zip(names, bs))

    def cfg(flags, pres):
        return [(dict(f), dict(p)) for f in combos(flags) for p in combos(pres)]

    def pos():
        window("compute_position_limits", cfg(["has_position_limits", "has_velocity_limits", "has_acceleration_limits"], ["av", "ap", "prev"]),
               lambda o, fl, v: V.position(o, fl, v["av"], v["ap"], v["prev"], tols["OUT_OF_BOUNDS_EXCEPTION_TOLERANCE"]),
               lambda p: {0: S("joint"), 2: optv(p["av"], "av"), 3: optv(p["ap"], "ap"), 4: optv(p["prev"], "prev"), 5: DT, "limits": LIM})

    def vel():
        window("compute_velocity_limits", cfg(["has_position_limits", "has_velocity_limits", "has_acceleration_limits"], ["ap", "prev"]),
               lambda o, fl, v: V.velocity(o, fl, S("des"), v["ap"], v["prev"], tols["POSITION_BOUNDS_TOLERANCE"]),
               lambda p: {0: S("joint"), 2: S("des"), 3: optv(p["ap"], "ap"), 4: optv(p["prev"], "prev"), 5: DT})

    def eff():
        window("compute_effort_limits", cfg(["has_position_limits", "has_velocity_limits", "has_effort_limits"], ["ap", "av"]),
               lambda o, fl, v: V.effort(o, fl, v["ap"], v["av"]),
               lambda p: {1: optv(p["ap"], "ap"), 2: optv(p["av"], "av"), 3: DT})

    def acc():
        window("compute_acceleration_limits", cfg(["has_acceleration_limits", "has_deceleration_limits"], ["av"]),
               lambda o, fl, v: V.acceleration(o, fl, S("des"), v["av"]),
               lambda p: {1: S("des"), 2: optv(p["av"], "av")})

    def limited():
        f = fn("is_limited")
        I = Ord(db).setup(base([(S("min"), S("max"), False)]))
        for k, s, v in I.run(f, args={0: S("value"), 1: S("min"), 2: S("max")}):
            for s2, b in I.branch(s, v):
                for want, o in explore(I.poly_of(s2), lambda o: o.lt(S("value"), S("min")) or o.lt(S("max"), S("value"))):
                    ctx.check(b == want, "is_limited: true exactly for values out of the window", where(f), facts_txt(s2), "is_limited")

    for nm, g in (("position window", pos), ("velocity window", vel), ("effort window", eff), ("acceleration window", acc), ("is_limited", limited)):
        ctx.section(nm, g)

    # ------------------------------------------------------------------------------------------------ enforcement
    ACT, DES, PREV = S("actual"), S("desired"), ("fld", ("this",), "prev_command_")
    WIN = {q: (S(q + ".lo"), S(q + ".hi")) for q in QS[:4]}
    ARGS = {   # callee: [(argument index, meaning)]
        "compute_position_limits": {2: ("actual", "velocity"), 3: ("actual", "position"), 4: ("prev", "position")},
        "compute_velocity_limits": {2: ("desired", "velocity"), 3: ("actual", "position"), 4: ("prev", "velocity")},
        "compute_effort_limits": {1: ("actual", "position"), 2: ("actual", "velocity")},
        "compute_acceleration_limits": {1: ("desired", "acceleration"), 2: ("actual", "velocity")},
    }

    class Enf(Ord):
        K = 3
        LIMIT = 20000

        def want_inline(self, f, call):
            return True

        def on_call(self, s, call):
            if call.name == "seconds" and call.recvv == S("dt_"):
                return [(s, self.dtv)]
            if call.name in ARGS and call.node.get("u") in db.fns and len(call.args) == len(db.fns[call.node["u"]]["params"]):
                q_ = call.name.split("_")[1]
                s.trace += (("window", q_, tuple(call.args), call.line),)
                lo, hi = WIN[q_]
                if (q_ == "velocity" and not self.fl["has_velocity_limits"]) or (q_ == "effort" and not self.fl["has_effort_limits"]):
                    lo, hi = NINF, INF
                return [(s, ("rec", q_, (("lower_limit", lo), ("upper_limit", hi))))]
            return super().on_call(s, call)

        def on_write(self, s, loc, val, node):
            if has_sub(loc, lambda t: t == DES) or has_sub(loc, lambda t: t == PREV):
                if not s.locks:
                    s.tags["unlocked"] = node.get("l") if isinstance(node, dict) else None
                s.tags["wrote"] = True
            return None

    def state(fl, des, act, prev, nan=()):
        s = State()
        for root, d in ((DES, des), (ACT, act), (PREV, prev)):
            for q_ in QS:
                s.heap[("fld", root, q_)] = d.get(q_, ("nullopt",))
            s.subs.add(root)
        s.heap[("fld", ("this",), "joint_limits_")] = ("vec", (self_limits(fl),))
        s.heap[("fld", ("this",), "joint_names_")] = ("vec", (S("joint"),))
        s.subs.add(("this",))
        return s

    def self_limits(fl):
        return ("upd", LIM, tuple((k, T.c(b)) for k, b in sorted(fl.items())))

    def get(I, s, root, q_):
        return I.read(s, ("fld", root, q_))

    def enforce(f, soft):
        W = where(f)
        nm = "soft limiter" if soft else "range limiter"
        key = "soft" if soft else "range"
        order = [(WIN[q_][0], WIN[q_][1], False) for q_ in WIN]
        tolp = tols["POSITION_BOUNDS_TOLERANCE"]

        def go(fl, des, act, prev, dtv=DT, softset=None, extra=()):
            ord_ = list(order) + list(extra)
            b = base()
            if fl["has_position_limits"]:
                b.add(MINP, WIN["position"][0], False)
                b.add(WIN["position"][1], MAXP, False)
            if fl["has_velocity_limits"]:
                b.add(T.umin(MV), WIN["velocity"][0], False)
                b.add(WIN["velocity"][1], MV, False)
            if fl["has_effort_limits"]:
                b.add(T.umin(ME), WIN["effort"][0], False)
                b.add(WIN["effort"][1], ME, False)
            for x, y, st in ord_:
                b.add(x, y, st)
            I = Enf(db).setup(b)
            I.dtv, I.fl = dtv, fl
            s = state(fl, des, act, prev)
            if soft:
                s.heap[("fld", ("this",), "soft_joint_limits_")] = ("vec", (("upd", S("soft"), tuple(softset.items())) if softset else S("soft"),)) if softset is not None else ("vec", ())
            outs = I.run(f, args={2: S("dt_")}, state=s)
            ctx.saw_interp(I, outs)
            return I, outs

        def flag(I, s, v, want, o, tag, q_):
            got = I.truth(s, v) if not T.isc(v) else bool(v[1])
            if got is None:
                ctx.undecided(f"{nm} flag", T.show(v))
                return
            ctx.check(got == want, f"{nm}: reports limiting exactly if a command was out of its window", W,
                      f"{tag}: reports {got} where {facts_txt(s)}", key + "-flag")

        allon = {k: True for k in FLAGS}

        def final_cmd(I, s, o, q_, want, tag, k2=None):
            """compare the command left behind"""
            y = get(I, s, DES, q_)
            if want is None:
                ctx.check(y == ("nullopt",), f"{nm}: quantities that are not commanded stay so", W, f"{tag}: {q_} becomes {T.show(y)}", key + "-invent")
                return
            yv = y[1] if y[0] == "some" else None
            if y == ("nullopt",):
                ctx.bad(f"{nm}: a command is not lost", W, f"{tag}: {q_}", key + "-lost")
                return
            if yv is None:
                ctx.undecided(f"{nm} {q_}", T.show(y))
                return
            if is_nan(want) or is_nan(yv):
                ctx.check(is_nan(want) and is_nan(yv), f"{nm}: NaN commands are not touched", W, f"{tag}: {q_} {T.show(yv)}", key + "-nan")
                return
            good = o.p.equal(yv, want)
            if good or not o.p.unknown:
                ctx.check(good, f"{nm}: the command is clamped to its window", W,
                          f"{tag}: {q_} becomes {T.show(yv)}, expected {T.show(want)}, where {facts_txt(s)}", key + "-clamp-" + q_)

        def args_ok(s, vals, tag):
            for e in s.trace:
                if e[0] != "window":
                    continue
                callee = f"compute_{e[1]}_limits"
                for i, (who, what) in ARGS[callee].items():
                    want = vals[who][what]
                    if callee == "compute_velocity_limits" and i == 2 or callee == "compute_acceleration_limits" and i == 1:
                        want = want[1] if want[0] == "some" else want
                    got = e[2][i]
                    if got == want:
                        ctx.ok(f"{nm}: {e[1]} window computed from the {who} {what}", W)
                    elif got[0] in ("some", "nullopt", "sym") and want[0] in ("some", "nullopt", "sym"):
                        ctx.bad(f"{nm}: {e[1]} window computed from the {who} {what}", where(f, e[3]), f"{tag}: {T.show(got)} instead of {T.show(want)}", key + "-arg-" + e[1])
                    else:
                        ctx.undecided(f"{nm} arguments", T.show(got))
                li = 0 if e[1] in ("effort", "acceleration") else 1
                lv = e[2][li]
                while lv[0] == "upd":
                    lv = lv[1]
                ctx.check(lv == LIM, f"{nm}: windows computed from the joint's limits", W, T.show(e[2][li]), key + "-limits")

        NAN = ("nan",)

        def prev_after(I, s, o, des_final_before, prev_before, tag, present):
            for q_ in QS:
                y = get(I, s, PREV, q_)
                d = get(I, s, DES, q_)
                if d[0] == "some" and not is_nan(d[1]):
                    want = d
                else:
                    want = prev_before[q_]
                if y == want:
                    ctx.ok(f"{nm}: the enforced command is remembered", W)
                elif y[0] in ("some", "nullopt") and want[0] in ("some", "nullopt"):
                    if y[0] == "some" and want[0] == "some" and not is_nan(y[1]) and not is_nan(want[1]) and o.p.equal(y[1], want[1]):
                        continue
                    ctx.bad(f"{nm}: the enforced command is remembered", W, f"{tag}: previous {q_} is {T.show(y)} instead of {T.show(want)}", key + "-prev-" + q_)
                else:
                    ctx.undecided(f"{nm} previous {q_}", T.show(y))

        # --- one commanded quantity; every availability of states; first and later calls
        def softspec(o, fl, act, prev, ss, q_):
            """(lo, hi) of the soft window for position / velocity / effort"""
            ap = act["position"]
            av = act["velocity"]
            pp = prev["position"]
            ppos = pp if pp is not None else ap
            apos = ap if ap is not None else pp
            smin, smax = NINF, INF
            if fl["has_velocity_limits"]:
                smin, smax = T.umin(MV), MV
                if fl["has_position_limits"] and ss == "full" and ppos is not None:
                    smin = o.clamp(T.mul(T.umin(KP), T.sub(ppos, SMIN)), T.umin(MV), MV)
                    smax = o.clamp(T.mul(T.umin(KP), T.sub(ppos, SMAX)), T.umin(MV), MV)
                    if apos is not None and (o.lt(apos, T.sub(MINP, T.c(tolp))) or o.lt(T.add(MAXP, T.c(tolp)), apos)):
                        smin = smax = Z
                    elif apos is not None and (o.lt(apos, SMIN) or o.lt(SMAX, apos)):
                        smin = T.umin(REACH) if o.lt(smin, Z) else REACH
                        smax = T.umin(REACH) if o.lt(smax, Z) else REACH
            if q_ == "position":
                lo, hi = (SMIN, SMAX) if ss in ("full", "pos") else (NINF, INF)
                if fl["has_velocity_limits"] and ppos is not None:
                    lo = o.clamp(T.add(ppos, T.mul(smin, DT)), lo, hi)
                    hi = o.clamp(T.add(ppos, T.mul(smax, DT)), lo, hi)
                l2, h2 = o.max(lo, WIN["position"][0]), o.min(hi, WIN["position"][1])
                if o.lt(h2, l2):
                    l2, h2 = lo, hi
                    if fl["has_position_limits"]:
                        l2, h2 = o.clamp(l2, MINP, MAXP), o.clamp(h2, MINP, MAXP)
                return l2, h2
            if q_ == "velocity":
                if fl["has_velocity_limits"] and fl["has_acceleration_limits"] and av is not None:
                    d = T.mul(MA, DT)
                    smin = o.max(T.sub(av, d), smin)
                    smax = o.min(T.add(av, d), smax)
                lo, hi = WIN["velocity"] if fl["has_velocity_limits"] else (NINF, INF)
                smin, smax = o.clamp(smin, lo, hi), o.clamp(smax, lo, hi)
                return (smax, smin) if o.lt(smax, smin) else (smin, smax)
            if q_ == "effort":
                lo, hi = WIN["effort"] if fl["has_effort_limits"] else (NINF, INF)
                if fl["has_effort_limits"] and ss == "full" and av is not None:
                    a = o.clamp(T.mul(T.umin(KV), T.sub(av, smin)), T.umin(ME), ME) if not is_inf(smin) else None
                    b = o.clamp(T.mul(T.umin(KV), T.sub(av, smax)), T.umin(ME), ME) if not is_inf(smax) else None
                    if a is None or b is None:
                        return None
                    return o.max(a, lo), o.min(b, hi)
                return lo, hi
        KP, KV, SMIN, SMAX = [("fld", S("soft"), n) for n in ("k_position", "k_velocity", "min_position", "max_position")]
        import math
        REACH = T.c(1.0 * (math.pi / 180.0))
        SOFTS = {None: None, "full": {}, "pos": {"k_position": NAN, "k_velocity": NAN}}

        def spec_window(o, fl, des, act, prev, ss, q_):
            if q_ == "jerk":
                return (T.umin(MJ), MJ) if fl["has_jerk_limits"] else (NINF, INF)
            if not soft or q_ == "acceleration":
                return WIN[q_]
            return softspec(o, fl, act, prev, ss, q_)

        def single(q_, first, a_pos, a_vel, ss, fl, thorough=False):
            D = S("d." + q_)
            des = {q_: ("some", D)}
            act = {}
            if a_pos:
                act["position"] = ("some", S("a.position"))
            if a_vel:
                act["velocity"] = ("some", S("a.velocity"))
            if q_ not in ("position", "velocity") and (a_pos or a_vel):
                act[q_] = ("some", S("a." + q_))
            prev = {} if first else {q2: ("some", S("p." + q2)) for q2 in QS}
            softset = SOFTS[ss]
            extra = []
            if soft and ss:
                extra = [(SMIN, SMAX, True), (T.c(1e-10), T.sub(SMAX, SMIN), True), (MINP, SMIN, False), (SMAX, MAXP, False)]
                if ss == "full":
                    extra += [(T.c(1e-10), KP, True), (T.c(1e-10), ("abs", KP), True), (Z, KV, True)]
            I, outs = go(fl, des, act, prev, softset=softset, extra=extra)
            filled = {q2: prev.get(q2, ("nullopt",)) for q2 in QS}
            if first:
                filled[q_] = act[q_] if q_ in act else des[q_]
            tag = f"{q_} command, {'first call' if first else 'later call'}, actual {'/'.join(act) or 'unknown'}" + (f", soft limits {ss}" if soft else "")
            av = {k_: (act[k_][1] if k_ in act else None) for k_ in QS}
            pv = {k_: (filled[k_][1] if filled[k_][0] == "some" else None) for k_ in QS}
            vals = {"actual": {k_: act.get(k_, ("nullopt",)) for k_ in QS}, "prev": filled, "desired": {q_: des[q_]}}
            for k, s, v in outs:
                if k == "throw":
                    continue
                p = I.poly_of(s)

                def spec(o):
                    w = spec_window(o, fl, des, av, pv, ss, q_)
                    if w is None:
                        return None
                    lo, hi = w
                    if o.lt(hi, lo):
                        return None
                    r = o.clamp(D, lo, hi)
                    return r, o.lt(D, lo) or o.lt(hi, D)
                for want, o in explore(p, spec):
                    if want is None or o.p.unknown or not o.p.consistent():
                        continue
                    final_cmd(I, s, o, q_, want[0], tag)
                    flag(I, s, v, want[1], o, tag, q_)
                    prev_after(I, s, o, None, filled, tag, q_)
                for q2 in QS:
                    if q2 != q_:
                        final_cmd(I, s, None, q2, None, tag)
                args_ok(s, vals, tag)
                if "unlocked" in s.tags:
                    ctx.bad(f"{nm}: commands are enforced under the limiter's lock", where(f, s.tags["unlocked"]), tag, key + "-lock")
                else:
                    ctx.ok(f"{nm}: commands are enforced under the limiter's lock", W)

        def flags_for(q_):
            if not soft:
                if q_ == "jerk":
                    return [dict(allon), {**allon, "has_jerk_limits": False}]
                return [dict(allon)]
            names = {"position": ["has_position_limits", "has_velocity_limits"], "velocity": ["has_position_limits", "has_velocity_limits", "has_acceleration_limits"],
                     "effort": ["has_effort_limits", "has_velocity_limits", "has_position_limits"], "acceleration": [], "jerk": ["has_jerk_limits"]}[q_]
            return [{**allon, **c_} for c_ in combos(names)]

        tasks = []
        for q_ in QS:
            for first in (False, True):
                for a_pos in (False, True):
                    for a_vel in (False, True):
                        for ss in ((None, "full", "pos") if soft else (None,)):
                            if ss is not None and (q_ in ("acceleration", "jerk") or (first and (ss == "pos" or q_ == "effort"))):
                                continue
                            if ss == "full" and (q_ == "position" and a_vel or first and (not a_pos or q_ == "velocity") or
                                                 ctx.tier == "quick" and q_ == "velocity" and a_pos and a_vel):
                                continue
                            for fl in flags_for(q_):
                                if ss and not fl["has_position_limits"]:
                                    continue
                                tasks.append((f"{nm} {q_}", single, (q_, first, a_pos, a_vel, ss, fl)))
        # the expensive ones first, so that they spread over the workers
        tasks.sort(key=lambda t: (t[2][4] != "full", t[2][0] != "position"))
        ctx.pmap(tasks)

        # --- two commanded quantities: the flag accumulates, NaN is skipped
        def pairs():
            fl = dict(allon)
            if soft:
                fl = {**allon, "has_velocity_limits": False, "has_effort_limits": True, "has_position_limits": True}
            for x, y in itertools.permutations(QS, 2):
                for ynan in (False, True):
                    if not ynan and QS.index(x) > QS.index(y):
                        continue
                    dx, dy = S("d." + x), NAN if ynan else S("d." + y)
                    des = {x: ("some", dx), y: ("some", dy)}
                    prev = {q2: ("some", S("p." + q2)) for q2 in QS}
                    I, outs = go(fl, des, {}, prev)
                    tag = f"{x} and {'NaN ' if ynan else ''}{y} commands"
                    for k, s, v in outs:
                        if k == "throw":
                            continue
                        p = I.poly_of(s)

                        def win(o, q2):
                            if q2 == "jerk":
                                return T.umin(MJ), MJ
                            if soft and q2 == "velocity":
                                return NINF, INF
                            return WIN[q2]

                        def spec(o):
                            out = []
                            fl_ = False
                            for q2, d2 in ((x, dx), (y, dy)):
                                if is_nan(d2):
                                    out.append(d2)
                                    continue
                                lo, hi = win(o, q2)
                                out.append(o.clamp(d2, lo, hi))
                                fl_ = (o.lt(d2, lo) or o.lt(hi, d2)) or fl_
                            return out[0], out[1], fl_
                        for want, o in explore(p, spec):
                            if o.p.unknown or not o.p.consistent():
                                continue
                            final_cmd(I, s, o, x, want[0], tag)
                            final_cmd(I, s, o, y, want[1], tag)
                            flag(I, s, v, want[2], o, tag, x)
                            prev_after(I, s, o, None, prev, tag, x)

        def nodt():
            des = {q2: ("some", S("d." + q2)) for q2 in QS}
            for dtv in (T.c(0), T.c(-1)):
                I, outs = go(dict(allon), des, {}, {}, dtv=dtv, softset=None)
                for k, s, v in outs:
                    tag = f"period {dtv[1]}"
                    ctx.check(k == "ret" and v == T.c(False), f"{nm}: a non-positive period enforces nothing", W, f"{tag}: {k} {T.show(v) if v else ''}", key + "-dt")
                    ch = [q2 for q2 in QS if get(I, s, DES, q2) != des[q2]]
                    ctx.check(not ch, f"{nm}: a non-positive period leaves the command alone", W, f"{tag}: {ch}", key + "-dt")
                    ch = [q2 for q2 in QS if get(I, s, PREV, q2) != ("nullopt",)]
                    ctx.check(not ch, f"{nm}: a non-positive period leaves the previous command alone", W, f"{tag}: {ch}", key + "-dt-prev")
        ctx.section(f"{nm} pairs", pairs)
        ctx.section(f"{nm} period", nodt)

    enf = [f for f in db.find("on_enforce") if f.get("body")]
    for f in enf:
        if "JointControlInterfacesData" in f["params"][1]["t"]:
            ctx.section(f["q"], enforce, f, "Soft" in f["q"])

    def traj():
        f = [f for f in enf if "Trajectory" in f["params"][1]["t"]][0]
        for dtv in (T.c(0), T.c(-1)):
            class N(Exact):
                def on_call(self, s, call):
                    if call.name == "seconds" and call.recvv == S("dt_"):
                        return [(s, dtv)]
            I = N(db)
            outs = I.run(f, args={2: S("dt_")})
            for k, s, v in outs:
                d = S(f["params"][1]["n"])
                ctx.check(k == "ret" and v == T.c(False) and not any(has_sub(l, lambda t: t == d) for l in s.heap), "trajectory limiter: a non-positive period enforces nothing",
                          where(f), f"{k} {T.show(v) if v else ''}", "traj-dt")

    def reset():
        for f in db.find("reset_internals"):
            if not f.get("body") or "JointControl" not in f["q"]:
                continue

            class R(Exact):
                def on_write(self, s, loc, val, node):
                    if has_sub(loc, lambda t: t == PREV):
                        ctx.check(bool(s.locks), "resetting the limiter holds its lock", where(f), "no lock held", "reset-lock")
                    return None
            I = R(db)
            st = State()
            for q_ in QS:
                st.heap[("fld", PREV, q_)] = ("some", S(q_))
            st.subs.add(PREV)
            for k, s, v in I.run(f, state=st):
                left = [q_ for q_ in QS if I.read(s, ("fld", PREV, q_)) == ("some", S(q_))]
                ctx.check(not left, "resetting the limiter forgets the previous command", where(f), f"{left} kept", "reset")
    ctx.section("trajectory", traj)
    ctx.section("reset", reset)
