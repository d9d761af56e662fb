"""P45 timing statistics: guarded, correctly accumulated, fed from their own measurements."""
import math
from engine import terms as T
from engine import rm as R
from engine.interp import State
from engine.util import *
from engine.db import AnchorMissing

MAS = "ros2_control::MovingAverageStatistics"
MSD = "ros2_control::MovingAverageStatisticsData"
COL = "hardware_interface::HardwareComponentStatisticsCollector"
HC = "hardware_interface::HardwareComponent::"
KINDS = ("average", "min", "max", "standard_deviation", "sample_count")
GET = {"average": "get_average", "min": "get_min", "max": "get_max", "standard_deviation": "get_standard_deviation", "sample_count": "get_count"}
NAN, BIG = float("nan"), 1.7976931348623157e308
LIMITS = {"std::numeric_limits::max": BIG, "std::numeric_limits::lowest": -BIG, "std::numeric_limits::min": 2.2250738585072014e-308, "std::numeric_limits::quiet_NaN": NAN, "std::numeric_limits::infinity": math.inf,
          "std::nan": NAN, "std::numeric_limits::signaling_NaN": NAN}


class Unknown(Exception):
    pass


def same(a, b):
    if isinstance(a, float) and math.isnan(a) or isinstance(b, float) and math.isnan(b):
        return isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b)
    return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def ev(t, env):
    """numeric value of a term; env: term -> number or None"""
    v = env(t)
    if v is not None:
        return v
    h = t[0]
    if h == "fld" and t[1][0] in ("def", "make") and "StatisticData" in str(t[1][1]) and len(t[1]) == 2 and t[2] in KINDS:
        return 0 if t[2] == "sample_count" else NAN      # as the library initialises it
    if h in ("c", "enum"):
        v = t[1] if h == "c" else t[2]
        if isinstance(v, (int, float, bool)):
            return v
        try:
            from fractions import Fraction
            if isinstance(v, Fraction):
                return float(v)
        except ImportError:
            pass
    if h in ("+", "*"):
        xs = [ev(x, env) for x in t[1:]]
        r = xs[0]
        for x in xs[1:]:
            r = r + x if h == "+" else r * x
        return r
    if h in ("-", "/") and len(t) == 3:
        a, b = ev(t[1], env), ev(t[2], env)
        if h == "-":
            return a - b
        if b == 0:
            return NAN if a == 0 or math.isnan(a) else math.copysign(math.inf, a)
        return a / b
    if h in ("neg", "-") and len(t) == 2:
        return -ev(t[1], env)
    if h in ("cast", "conv") and len(t) == 3:
        return ev(t[2], env)
    if h in ("<", "<=", ">", ">=", "==", "!="):
        a, b = ev(t[1], env), ev(t[2], env)
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[h]
    if h in ("isfinite", "isnan", "isinf") and len(t) == 2:
        return getattr(math, h)(ev(t[1], env))
    if h == "not":
        return not ev(t[1], env)
    if h in ("and", "or"):
        xs = [ev(x, env) for x in t[1:]]
        return all(xs) if h == "and" else any(xs)
    if h in ("min", "max"):
        xs = [ev(x, env) for x in t[1:]]
        return min(xs) if h == "min" else max(xs)
    if h == "call":
        n = t[1].rsplit("::", 1)[-1]
        if t[1] in LIMITS:
            return LIMITS[t[1]]
        xs = [ev(x, env) for x in t[2:]]
        if n in ("sqrt", "sqrtf", "sqrtl"):
            return math.sqrt(xs[0]) if xs[0] >= 0 else NAN
        if n in ("isfinite",):
            return math.isfinite(xs[0])
        if n == "isnan":
            return math.isnan(xs[0])
        if n == "isinf":
            return math.isinf(xs[0])
        if n in ("abs", "fabs"):
            return abs(xs[0])
        if n == "pow" and len(xs) == 2:
            return xs[0] ** xs[1]
        if n in ("fmin", "min") and len(xs) == 2:
            return min(xs)
        if n in ("fmax", "max") and len(xs) == 2:
            return max(xs)
        if n in ("fma",) and len(xs) == 3:
            return xs[0] * xs[1] + xs[2]
        if n == "hypot":
            return math.hypot(*xs)
    raise Unknown(T.show(t)[:80])


def feasible(s, env):
    """whether a path is the one taken for the values of env"""
    for a, b in s.facts.items():
        if a[0] == "val" or not isinstance(b, bool):
            continue
        if bool(ev(a, env)) != b:
            return False
    return True


def root(l):
    while l[0] in ("fld", "idx"):
        l = l[1]
    return l


class SInterp(Exact):
    """records which members of a statistics object are touched under which of its locks"""
    objects = True
    inline_new = True
    interfere = False

    def __init__(self, db, rec):
        super().__init__(db)
        self.acc = []
        self.lockev = []
        self.rec = {}
        for q in rec:
            fs = db.rec(q)["fields"]
            self.rec[q] = ({f["n"] for f in fs if "mutex" in f["t"]}, {f["n"] for f in fs if "mutex" not in f["t"] and "atomic" not in f["t"]})
        self.mtx = set().union(*(m for m, _ in self.rec.values()))

    def cls(self):
        for f, _ in reversed(self.stack):
            if f.get("cls"):
                return f["cls"], f.get("kind") in ("ctor", "dtor")
        return None, False

    def touch(self, s, l, node, write):
        x, first = l, None
        while x[0] in ("fld", "idx"):
            if x[0] == "fld":
                first = x[2]
            x = x[1]
        c, making = self.cls()
        if first is None or making or c not in self.rec or first in self.mtx:
            return
        r = root(l)
        # a member of the class whose method runs (its receiver) or of the source of a copy
        if not any(first in flds for _, flds in self.rec.values()):
            return
        held = [m for m, sh in s.locks if root(m) == r and m[0] == "fld" and m[2] in self.mtx and not (write and sh)]
        if r[0] not in ("this", "deref", "sym"):
            return
        self.acc.append((bool(held), write, first, self.stack[-1][0]["q"], (node or {}).get("l", 0), self.stack[0][0]["q"]))

    def on_read(self, s, l, node):
        self.touch(s, l, node, False)

    def on_write(self, s, l, val, node):
        self.touch(s, l, node, True)

    def on_lock(self, s, m, mode, node):
        if m[0] != "fld" or m[2] not in self.mtx:
            return
        self.lockev.append((m, any(x == m for x, _ in s.locks), self.stack[-1][0]["q"]))
        if self.interfere and root(m)[0] == "deref":
            # whatever another thread did while the lock was free
            s.n += 1
            k = s.tags.get("snap", 0) + 1
            s.tags["snap"] = k
            if not s.tags.get("was reset"):
                for f in self.rec[MAS][1]:
                    I_ = ("fld", root(m), f)
                    for l in [x for x in list(s.heap) if x != I_ and isinstance(x, tuple) and x and x[0] == "fld" and has_sub(x, lambda t: t == I_)]:
                        s.heap.pop(l, None)
                    self.wr(s, I_, ("sym", f"snap{k}.{f}"))


def runm(ctx, f, heap=None, args=None, interfere=False, state=None):
    I = SInterp(ctx.db, (MAS, MSD))
    I.interfere = interfere
    st = state or State()
    for k, v in (heap or {}).items():
        I.wr(st, k, v)
    a = {i: ("sym", p["n"] or f"a{i}") for i, p in enumerate(f["params"])}
    a.update(args or {})
    outs = I.run(f, args=a, state=st)
    ctx.saw_interp(I, outs)
    return I, outs


def getters(ctx, cls, s=None, this=None):
    """name -> value read by the class's accessors"""
    out = {}
    for k, g in GET.items():
        f = ctx.db.one(MAS + "::" + g)
        I, outs = runm(ctx, f)
        if len(outs) != 1 or outs[0][0] != "ret":
            raise AnchorMissing(f["q"])
        out[k] = outs[0][2]
    return out


def plain(I, outs):
    k, s, v = outs[0]
    return I.read(s, v[1]) if v is not None and v[0] == "loc" else v


# ---------------------------------------------------------------- A: locking
def locking(ctx):
    for q in (MAS, MSD):
        if not SInterp(ctx.db, (q,)).mtx:
            ctx.bad("statistics are protected by a lock", q, "no mutex member")
            continue
        for f in [x for x in ctx.db.fns.values() if x.get("cls") == q and x.get("body") and x.get("kind") not in ("ctor", "dtor")]:
            I, outs = runm(ctx, f)
            W = where(f)
            for ok, write, fld, fn, line, top in I.acc:
                ctx.check(ok, "statistics are read and written only under their lock", W, f"{'write' if write else 'read'} of {fld} in {fn} line {line}", f"{f['q']}-{fld}")
            for m, twice, fn in I.lockev:
                ctx.check(not twice, "a statistics lock is not taken twice", W, f"in {fn}", f"{f['q']}-twice")
            for k, s, v in outs:
                ctx.check(not [m for m, _ in s.locks if m[0] == "fld" and m[2] in I.mtx], "a statistics lock is released when the operation ends", W, "", f["q"])
            if not outs:
                ctx.undecided(f["q"], "no path")


# ---------------------------------------------------------------- B-D: the accumulator
def accumulate(ctx):
    db = ctx.db
    add = db.one(MAS + "::add_measurement")
    W = where(add)
    g = getters(ctx, MAS)
    Ig, og = runm(ctx, db.one(MAS + "::get_current_measurement"))
    cur = plain(Ig, og)
    hidden = [f["n"] for f in db.rec(MAS)["fields"] if f["t"] == "double" and ("fld", ("this",), f["n"]) != cur]
    locs = {k: v for k, v in g.items()}
    for k, v in locs.items():
        if v[0] != "fld":
            ctx.undecided("accessor " + GET[k], T.show(v)[:80])
            return
        ctx.check(v[2] == k or v[2] not in KINDS, "an accessor returns the statistic of its name", where(db.one(MAS + "::" + GET[k])), f"{GET[k]} returns {T.show(v)}", GET[k])
    if len(set(locs.values())) != len(locs):
        ctx.bad("an accessor returns the statistic of its name", W, "two accessors return the same member", "distinct")
        return
    # snapshots
    for nm, w in (("get_statistics", None), ("get_statistics_const_ptr", None), ("get_current_measurement_const_ptr", cur)):
        for f in db.find(MAS + "::" + nm):
            I, o = runm(ctx, f)
            v = plain(I, o)
            want = w or locs["average"][1]
            if v[0] != "fld":
                ctx.undecided(nm, T.show(v)[:80])
            else:
                ctx.check(v == want, "an accessor returns the statistic of its name", where(f), f"{nm} returns {T.show(v)}", nm)

    def after(I, s, k):
        return I.read(s, locs[k])
    I, outs = runm(ctx, add, args={0: ("sym", "x")})
    prior = [(1, 3.0, 3.0, 3.0, 0.0), (4, 2.0, -1.5, 6.0, 1.25), (9, -7.5, -20.0, 11.0, 4.5), (1000, 100.25, 80.0, 130.5, 7.75)]
    xs = [0.0, 3.0, -2.75, 7.5, 200.0, -300.5]
    pts = [(p, x) for p in prior for x in xs] + [((0, 0.0, BIG, -BIG, 0.0), x) for x in (0.0, 4.25, -8.5)]
    n_ok = 0
    for (n, avg, mn, mx, sd), x in pts + [((4, 2.0, -1.5, 6.0, 1.25), v) for v in (NAN, math.inf, -math.inf)]:
        vals = {locs["average"]: avg, locs["min"]: mn, locs["max"]: mx, locs["standard_deviation"]: sd, locs["sample_count"]: n, ("sym", "x"): x, cur: 1.5}
        for h in hidden:
            vals[("fld", ("this",), h)] = sd * sd * n
        env = lambda t: vals.get(t)
        try:
            ps = [(k, s, v) for k, s, v in outs if feasible(s, env)]
            if len(ps) != 1:
                raise Unknown(f"{len(ps)} paths")
            k, s, v = ps[0]
            got = {q: ev(after(I, s, q), env) for q in KINDS}
            got["hidden"] = ev(I.read(s, ("fld", ("this",), hidden[0])), env) if len(hidden) == 1 else None
            got["cur"] = ev(I.read(s, cur), env)
        except Unknown as e:
            ctx.undecided(f"add_measurement of {x}", str(e))
            return
        if math.isfinite(x):
            n2 = n + 1
            a2 = avg + (x - avg) / n2
            m2 = sd * sd * n + (x - avg) * (x - a2)
            want = {"sample_count": n2, "average": a2, "min": min(mn, x), "max": max(mx, x), "standard_deviation": math.sqrt(m2 / n2)}
        else:
            want = {"sample_count": n, "average": avg, "min": mn, "max": mx, "standard_deviation": sd}
            m2 = sd * sd * n
        what = f"{n} samples (average {avg}, min {mn}, max {mx}, standard deviation {sd}) and a measurement of {x}"
        rule = "a finite measurement updates count, average, minimum, maximum and standard deviation of all measurements" if math.isfinite(x) else "a measurement that is not finite leaves the statistics unchanged"
        for q in KINDS:
            ctx.check(same(got[q], want[q]), rule, W, f"{what}: {q} becomes {got[q]}, expected {want[q]}", f"{q}-{math.isfinite(x)}")
        if len(hidden) == 1 and hidden[0] == "sum_of_square_diff_from_mean_":
            ctx.check(same(got["hidden"], m2), rule, W, f"{what}: sum of squared differences becomes {got['hidden']}, expected {m2}", f"m2-{math.isfinite(x)}")
        ctx.check(same(got["cur"], x), "the current measurement is the last one", W, f"{what}: current {got['cur']}", "cur")
        n_ok += 1
    # reset
    for nm, q in (("reset", MAS),):
        f = db.one(q + "::" + nm)
        I, outs = runm(ctx, f)
        for k, s, v in outs:
            for l, want in [(locs["average"], 0), (locs["sample_count"], 0), (locs["standard_deviation"], 0), (locs["min"], BIG), (locs["max"], -BIG), (cur, NAN)] + [(("fld", ("this",), h), 0) for h in hidden]:
                try:
                    got = ev(I.read(s, l), lambda t: None)
                except Unknown as e:
                    if I.read(s, l) == l:
                        ctx.bad("a reset clears every accumulated quantity", where(f), f"{T.show(l)} is kept", f"reset-{T.show(l)}")
                    else:
                        ctx.undecided("reset", str(e))
                    continue
                good = same(got, want) or l in (locs["min"], locs["max"]) and math.isinf(got) and (got > 0) == (want > 0)
                ctx.check(good, "a reset clears every accumulated quantity", where(f), f"{T.show(l)} becomes {got}", f"reset-{T.show(l)}")
    for f in db.find(MAS + "::reset_current_measurement"):
        I, outs = runm(ctx, f)
        for k, s, v in outs:
            for q in KINDS:
                ctx.check(after(I, s, q) == locs[q], "resetting the current measurement keeps the statistics", where(f), q, f"rcm-{q}")


# ---------------------------------------------------------------- E: the published copy
def published(ctx):
    db = ctx.db
    f = db.one(MSD + "::update_statistics")
    W = where(f)
    g = getters(ctx, MAS)
    Ig, og = runm(ctx, db.one(MAS + "::get_current_measurement"))
    cur = plain(Ig, og)
    I1, o1 = runm(ctx, db.one(MSD + "::get_statistics"))
    I2, o2 = runm(ctx, db.one(MSD + "::get_current_data"))
    data, dcur = plain(I1, o1), plain(I2, o2)
    if data[0] != "fld" or dcur[0] != "fld" or any(v[0] != "fld" or v[1][0] != "fld" for v in g.values()):
        ctx.undecided("published statistics", "accessors")
        return
    ctx.check(data != dcur, "an accessor returns the statistic of its name", W, "get_statistics", "pub")
    sub = g["average"][1][2]      # the member holding the statistics
    src = T.deref(("sym", f["params"][0]["n"]))
    limits = []
    for sf in db.find(MSD + "::set_reset_statistics_sample_count"):
        I, outs = runm(ctx, sf, args={0: ("sym", "limit")})
        for k, s, v in outs:
            limits += [l for l, v in s.heap.items() if v == ("sym", "limit") and isinstance(l, tuple) and l[0] == "fld"]
    limits = set(limits)
    if len(limits) != 1:
        ctx.bad("the number of samples after which statistics start anew can be set", where(db.one(MSD + "::set_reset_statistics_sample_count")), "the value is not kept", "limit") if not limits else ctx.undecided("limit", str(limits))
        return
    limit = limits.pop()
    I, outs = runm(ctx, f, interfere=True)

    def env_of(n, lim):
        def env(t):
            if t == limit:
                return lim
            if t[0] == "fld" and t[1][0] == "sym" and str(t[1][1]).startswith("snap") and t[2] == "sample_count":
                return n
            if t == ("fld", ("fld", src, sub), "sample_count"):
                return n
            return None
        return env
    for n, lim in ((0, 5), (1, 5), (4, 5), (5, 5), (6, 5), (3, 3), (2, 4294967295), (0, 0), (1, 0)):
        try:
            ps = [(k, s, v) for k, s, v in outs if feasible(s, env_of(n, lim))]
        except Unknown as e:
            ctx.undecided(f"{n} samples, limit {lim}", str(e))
            continue
        if not ps:
            ctx.undecided(f"{n} samples, limit {lim}", "no path")
        for k, s, v in ps:
            what = f"{n} samples, reset after {lim}"
            got = [I.read(s, ("fld", data, q)) for q in KINDS]
            c = I.read(s, dcur)
            if n == 0:
                ctx.check(all(x == ("fld", data, q) for x, q in zip(got, KINDS)), "without measurements the published statistics stay as they are", W, f"{what}: {[T.show(x) for x in got]}", "pub-none")
            else:
                snaps = set()
                for x, q in zip(got, KINDS):
                    y = x
                    if y == ("fld", data, q):
                        ctx.bad("the published statistics are those of the collector", W, f"{what}: {q} is not updated", f"pub-{q}")
                        continue
                    if not (y[0] == "fld" and y[1][0] == "sym" and str(y[1][1]).startswith("snap")):
                        ctx.undecided(what, f"{q} = {T.show(y)[:80]}")
                        continue
                    ctx.check(y[2] == q, "the published statistics are those of the collector", W, f"{what}: {q} is {T.show(y)}", f"pub-{q}")
                    snaps.add(y[1][1])
                ctx.check(len(snaps) <= 1, "the published statistics are one consistent state of the collector, whatever is measured meanwhile", W, f"{what}: taken from {sorted(snaps)}", "pub-torn")
                if c == dcur:
                    ctx.bad("the published current value is the collector's", W, what, "pub-cur")
                elif c[0] == "sym" and str(c[1]).startswith("snap"):
                    ctx.check(c[1].endswith("." + cur[2]), "the published current value is the collector's", W, f"{what}: {T.show(c)}", "pub-cur")
                else:
                    ctx.undecided(what, f"current {T.show(c)[:80]}")
            sc = I.read(s, ("fld", ("fld", src, sub), "sample_count"))
            was = sc == T.c(0)
            ctx.check(was == (n >= lim), "the collector starts anew exactly when the configured number of samples is reached", W, f"{what}: {'reset' if was else 'not reset'}", "pub-reset")
    # construction and reset of the copy
    for f2 in db.find(MSD + "::reset") + [x for x in db.fns.values() if x.get("cls") == MSD and x.get("kind") == "ctor" and not x["params"] and x.get("body")]:
        I, outs = runm(ctx, f2)
        for k, s, v in outs:
            for q in KINDS:
                x = I.read(s, ("fld", data, q))
                want = 0 if q == "sample_count" else NAN
                try:
                    ctx.check(same(float(ev(x, lambda t: None)), float(want)), "cleared published statistics say that nothing was measured", where(f2), f"{q} = {T.show(x)}", f"{f2['n']}-{q}")
                except Unknown as e:
                    if x == ("fld", data, q):
                        ctx.bad("cleared published statistics say that nothing was measured", where(f2), f"{q} is kept", f"{f2['n']}-{q}")
                    else:
                        ctx.undecided(f2["q"], str(e))


# ---------------------------------------------------------------- F-G: who feeds what
def collector(ctx):
    db = ctx.db
    names = [f["n"] for f in db.rec(COL)["fields"] if "MovingAverageStatistics" in f["t"]]
    for f in [x for x in db.fns.values() if x.get("cls") == COL and x.get("kind") == "ctor" and not x["params"] and x.get("body")]:
        I, outs = runm(ctx, f)
        for k, s, v in outs:
            vs = [I.read(s, ("fld", ("this",), n)) for n in names]
            if any(v[0] not in ("new", "c") for v in vs):
                ctx.undecided(f["q"], str([T.show(v) for v in vs])[:150])
                continue
            ctx.check(all(v[0] == "new" for v in vs) and len(set(vs)) == len(vs), "every statistic has a collector of its own", where(f), str([T.show(v) for v in vs]), "col")
    f = db.one(COL + "::reset_statistics")
    I, outs = runm(ctx, f)
    for k, s, v in outs:
        for n in names:
            o = T.deref(("fld", ("this",), n))
            hit = [l for l, v in s.heap.items() if isinstance(l, tuple) and l[0] == "fld" and l[2] == "sample_count" and has_sub(l, lambda t: t == o) and v == T.c(0)]
            ctx.check(bool(hit), "resetting the statistics of a component resets all of them", where(f), f"{n} is kept", f"col-{n}")


class FInterp(Exact):
    """value flow from the result of a cycle into the statistics"""
    objects = True
    trig = None

    def want_inline(self, fn, call):
        return not fn["q"].startswith("rclcpp") and "statistics_types" not in fn.get("file", "")

    def on_call(self, s, call):
        n = call.name
        if n in ("trigger_read", "trigger_write", "trigger_update"):
            out = []
            for ok in (True, False):
                for ex in (True, False):
                    for r, rv in self.rets.items():
                        s2 = s.copy()
                        s2.tags["res"] = (ok, ex, r)
                        out.append((s2, ("rec", "HardwareComponentCycleStatus", (("successful", T.c(ok)), ("result", ("enum", self.rtq + "::" + r, rv)),
                                                                               ("execution_time", ("some", ("sym", "EXEC")) if ex else ("nullopt",)), ("period", ("some", ("sym", "PERIOD")))))))
            return out
        if n in ("add_measurement", "reset_statistics") or n in ("reset",) and "Statistics" in call.fq:
            s.tags["ev"] = s.tags.get("ev", ()) + ((n, call.recv, tuple(call.args), call.line),)
            return [(s, T.c(None))]
        if n in ("error", "deactivate") and "HardwareComponent" in call.fq:
            s.tags["ev"] = s.tags.get("ev", ()) + ((n,),)
            return [(s, ("sym", "state"))]
        if n == "get_lifecycle_id":
            return [(s, T.c(self.lc))]
        return None


def feeding(ctx):
    db = ctx.db
    from engine.hw import enumvals, ACTIVE
    for op in ("read", "write"):
        f = db.one(HC + op)
        W = where(f)
        I = FInterp(db)
        I.rtq = "hardware_interface::return_type"
        I.rets = enumvals(db, I.rtq)
        I.lc = ACTIVE
        outs = I.run(f, args={0: ("sym", "TIME"), 1: ("sym", "P")}, state=State())
        ctx.saw_interp(I, outs)
        other = {"read": "write", "write": "read"}[op]
        seen = set()
        for k, s, v in outs:
            evs = [e for e in s.tags.get("ev", ()) if e[0] == "add_measurement"]
            res = s.tags.get("res")
            if res is None:
                ctx.check(not evs, "only a cycle that ran is measured", W, "no cycle was triggered", f"{op}-nocycle")
                continue
            got = {}
            for e in evs:
                l = e[1]
                fl = [t[2] for t in T.subterms(l) if t[0] == "fld"]
                a = e[2][0]
                kind = "execution_time" if has_sub(a, lambda t: t == ("sym", "EXEC")) else "periodicity" if has_sub(a, lambda t: t == ("sym", "TIME") or t == ("sym", "PERIOD")) else None
                if kind is None or not ({"execution_time", "periodicity"} & set(fl)):
                    ctx.undecided(op, f"measurement {T.show(a)[:80]} into {T.show(l)[:80]}")
                    continue
                what = f"{op}: {T.show(a)[:100]} goes into {T.show(l)[:100]} (line {e[3]})"
                ctx.check(kind in fl, "each statistic is fed from its own measurement", W, what, f"{op}-{kind}")
                ctx.check(not any(other in x for x in fl), "each statistic is fed from its own measurement", W, what, f"{op}-dir-{kind}")
                got[kind] = got.get(kind, 0) + 1
                if kind == "execution_time":
                    x = scale(a, lambda t: t[0] == "count" or t[0] == "call" and t[1].endswith("::count"), 12500.0)
                    if x is None:
                        ctx.undecided(op, T.show(a)[:100])
                    else:
                        ctx.check(same(x, 12.5), "execution times are kept in microseconds", W, f"{what}: 12500 ns become {x}", f"{op}-us")
                elif has_sub(a, lambda t: t == ("sym", "PERIOD")) is False:
                    x = scale(a, lambda t: t[0] == "call" and t[1].endswith("::seconds"), 0.02)
                    if x is None:
                        ctx.undecided(op, T.show(a)[:100])
                    else:
                        ctx.check(same(x, 50.0), "periodicity is the reciprocal of the time between cycles", W, f"{what}: a period of 0.02 s becomes {x}", f"{op}-hz")
                    d = [t for t in T.subterms(a) if t[0] == "-" and len(t) == 3]
                    if len(d) == 1:
                        ctx.check(d[0][1] == ("sym", "TIME"), "periodicity is the reciprocal of the time between cycles", W, what, f"{op}-diff")
                        ls = [t[2] for t in T.subterms(d[0][2]) if t[0] == "fld"]
                        ctx.check(not any(other in x for x in ls), "periodicity is the reciprocal of the time between cycles", W, what, f"{op}-last")
            ok, ex, r = res
            what = f"{op} {'ran' if ok else 'was skipped'}, {'with' if ex else 'without'} an execution time, result {r}"
            if not ok:
                ctx.check(not evs, "only a cycle that ran is measured", W, what, f"{op}-skipped")
            else:
                ctx.check(got.get("execution_time", 0) == (1 if ex else 0), "every execution time is measured once", W, f"{what}: {got}", f"{op}-once")
                ctx.check(got.get("periodicity", 0) <= 1, "every period is measured once", W, f"{what}: {got}", f"{op}-oncep")
                seen.add(got.get("periodicity", 0))
                last = [(l, v2) for l, v2 in s.heap.items() if isinstance(l, tuple) and l[0] == "fld" and v2 == ("sym", "TIME")]
                ctx.check(any(op in l[2] for l, _ in last), "the time of the cycle is kept for the next period", W, what, f"{op}-keep")
        if 1 not in seen:
            ctx.bad("every period is measured once", W, f"{op}: no path measures a period", f"{op}-never") if seen else ctx.undecided(op, "no cycle")
    # activation starts anew
    f = db.one(HC + "activate")
    I = FInterp(db)
    I.lc = 1
    outs = I.run(f, args={}, state=State())
    ctx.saw_interp(I, outs)
    for k, s, v in outs:
        fl = set()
        for e in s.tags.get("ev", ()):
            if e[0] in ("reset_statistics", "reset") and e[1] is not None:
                fl |= {t[2] for t in T.subterms(e[1]) if t[0] == "fld"}
        sensor = [b for a, b in s.facts.items() if has_sub(a, lambda t: t == T.c("sensor"))]
        ctx.check(any("read" in x for x in fl), "the statistics of a component start anew with its activation", where(f), "read statistics are kept", "act-read")
        if sensor != [True]:
            ctx.check(any("write" in x for x in fl), "the statistics of a component start anew with its activation", where(f), "write statistics are kept", "act-write")


def scale(t, pred, val):
    try:
        return ev(t, lambda x: val if pred(x) else None)
    except Unknown:
        return None


class RmStat(R.RmInterp):
    def on_call(self, s, call):
        if call.name == "update_statistics":
            self.ev_(s, "upd", call.recv, call.args[0], tuple(m for m, _ in s.locks))
            return [(s, T.c(None))]
        if call.name in ("get_read_statistics", "get_write_statistics") and call.recv is not None:
            comp = self.comp_of(call.recv) or (self.comp_of(call.recvv) if call.recvv else None)
            if comp is not None:
                return [(s, ("loc", ("fld", ("sym", comp.name), call.name[4:])))]
        return super().on_call(s, call)


def forwarding(ctx):
    """resource manager: the collectors of a component reach the published statistics of the same component, direction and kind"""
    db = ctx.db
    for op in ("read", "write"):
        f = db.one(R.RM + op)
        W = where(f)
        comps = [R.Comp("actuator", "hw0", throws=False), R.Comp("system", "hw1", throws=False), R.Comp("sensor", "hw2", throws=False)]

        def setup(I, s):
            for l, m in list(s.heap.items()):
                if isinstance(l, tuple) and l[0] == "fld" and l[2] == "hardware_info_map_":
                    I.wr(s, l, stat_map(m, comps))
        I, outs = R.run(ctx, op, comps, {0: ("sym", "time"), 1: ("sym", "period")}, setup, interp=RmStat)
        n = 0
        for k, s, v in outs:
            ups = [e for e in R.events(s) if e[0] == "upd"]
            seen = {}
            for _, dst, src, locks in ups:
                ds, ss = T.show(dst), T.show(src)
                kd = [x for x in ("execution_time", "periodicity") if x in ds]
                ks = [x for x in ("execution_time", "periodicity") if x in ss]
                dd = [x for x in ("read", "write") if x + " STAT" in ds or x + "_statistics" in ds]
                dsr = [x for x in ("read", "write") if x + "_statistics" in ss]
                cd = [c.name for c in comps if c.name in ds]
                cs = [c.name for c in comps if c.name in ss]
                if not all(len(x) == 1 for x in (kd, ks, dd, dsr, cd, cs)):
                    ctx.undecided(op, f"{ss[:80]} into {ds[:80]}")
                    continue
                n += 1
                ctx.check(kd == ks and dd == dsr and cd == cs and dd == [op], "the statistics published of a component are those measured of it, of the same kind and direction", W,
                          f"{op}: {ss[:100]} updates {ds[:100]}", f"fwd-{op}-{kd[0]}")
                seen.setdefault(cd[0], set()).add(kd[0])
            for c, ks in seen.items():
                ctx.check(len(ks) == 2, "both statistics of a component are published", W, f"{op}: only {sorted(ks)} of {c}", f"fwd2-{op}")
        if not n:
            ctx.undecided(op, "no update of published statistics seen")


def stat_map(m, comps):
    out = m
    for c in comps:
        v = T.index(m, T.c(c.name))
        def pub(d):
            return ("sym", f"{d} STAT of {c.name}")
        v2 = ("upd", v, (("read_statistics", pub("read")),) + ((("write_statistics", pub("write")),) if c.kind != "sensor" else (("write_statistics", T.NULL),)))
        out = ("mapset", out, T.c(c.name), v2)
    return out


def controllers(ctx):
    """controller manager: execution time and period of an update reach the statistics of the same controller"""
    from engine import cm as C
    from engine.cm import Ctl, ACTIVE, events
    db = ctx.db
    f = db.one(C.CM + "update")
    W = where(f)

    class CmStat(C.CmInterp):
        def on_call(self, s, call):
            if call.name == "add_measurement":
                s.tags["ev"] = s.tags.get("ev", ()) + (("stat", call.recv, call.args[0], call.line),)
                return [(s, T.c(None))]
            return super().on_call(s, call)
    past = ("make", "rclcpp::Time", T.c(7), T.c(0), T.c(0))
    I, outs = C.run(ctx, "update", [Ctl("a", ACTIVE, throws=False), Ctl("b", ACTIVE, throws=False)], {0: ("make", "rclcpp::Time", T.c(9), T.c(0), T.c(0))}, None, interp=CmStat, measured=True,
                    stubs={n: True for n in ("manage_switch", "publish_activity_of_controllers", "publish_activity", "deactivate_controllers", "activate_controllers", "perform_hardware_command_mode_change")},
                    last={"a": past, "b": past}, elapsed={}, clock_started=True, update_throws=False, rate=100)
    n = 0
    for k, s, v in outs:
        cur = None
        for e in events(s):
            if e[0] == "update":
                cur = e[1]
            if e[0] != "stat":
                continue
            l, a = T.show(e[1]), T.show(e[2])
            if " " not in l and "periodicity_stats" in l:
                continue
            kinds = [x for x, y in (("execution", "exec "), ("periodicity", "per ")) if y in l]
            if len(kinds) != 1:
                ctx.undecided("update", f"{a[:60]} into {l[:60]}")
                continue
            who = l[l.index("exec " if kinds[0] == "execution" else "per "):].split()[1].strip("().*")
            src = ["execution" if "took " in a else None, "periodicity" if "period " in a else None]
            src = [x for x in src if x]
            if len(src) != 1:
                ctx.undecided("update", f"{a[:60]} into {l[:60]}")
                continue
            n += 1
            ctx.check(src == kinds, "each statistic is fed from its own measurement", W, f"update: {a[:100]} goes into {l[:60]}", f"ctl-{kinds[0]}")
            if cur is not None:
                ctx.check(who == cur, "each statistic is fed from its own measurement", W, f"update of {cur}: measured for {who}", f"ctl-who-{kinds[0]}")
            if kinds[0] == "execution":
                x = scale(e[2], lambda t: t[0] == "count" or t[0] == "call" and t[1].endswith("::count"), 12500.0)
                if x is not None:
                    ctx.check(same(x, 12.5), "execution times are kept in microseconds", W, f"update: 12500 ns become {x}", "ctl-us")
            else:
                x = scale(e[2], lambda t: t[0] == "call" and t[1].endswith("::seconds"), 0.02)
                if x is not None:
                    ctx.check(same(x, 50.0), "periodicity is the reciprocal of the time between cycles", W, f"update: 0.02 s become {x}", "ctl-hz")
    if not n:
        ctx.undecided("update", "no measurement seen")


def run(ctx):
    ctx.rule("Every operation of the statistics classes is interpreted abstractly: each access to a member is checked for the lock held; the values left are compared with the definition of count, mean, extremes and standard deviation "
             "(real arithmetic, the paths' terms evaluated over a grid of prior states and measurements); copying is interpreted with arbitrary interference between any two locked sections. "
             "The places that measure are interpreted for every result of a cycle: which value reaches which statistic.")
    ctx.assumption("rounding of floating-point arithmetic is not considered; references handed out by the accessors for introspection are read without the lock")
    ctx.section("locking", locking, ctx)
    ctx.section("accumulation", accumulate, ctx)
    ctx.section("publication", published, ctx)
    ctx.section("collector", collector, ctx)
    ctx.section("feeding", feeding, ctx)
    ctx.section("forwarding", forwarding, ctx)
    ctx.section("controllers", controllers, ctx)
