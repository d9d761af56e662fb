"""P46 diagnostics flag what is wrong: levels reported versus thresholds exceeded."""
import itertools
from engine import terms as T
from engine import cm as C
from engine.cm import CmInterp, Ctl, UNCONF, INACTIVE, ACTIVE, FINAL, NAMES, start, events
from engine.util import *

OK, WARN, ERROR = 0, 1, 2
LV = {0: "OK", 1: "WARN", 2: "ERROR", 3: "STALE"}
PMEAN, PSD, EMEAN, ESD = "periodicity mean error", "periodicity standard deviation", "execution time mean error", "execution time standard deviation"
# (warn, error) per group and quantity; all different, so that a comparison with another one's threshold shows
TH = {
    "controllers": {PMEAN: (5.0, 10.0), PSD: (7.0, 15.0), EMEAN: (1000.0, 2000.0), ESD: (100.0, 200.0)},
    "hardware_components": {PMEAN: (6.0, 12.0), PSD: (8.0, 17.0), EMEAN: (1100.0, 2200.0), ESD: (110.0, 220.0)},
    "controller_manager": {PMEAN: (4.0, 9.0), PSD: (3.0, 13.0)},
}
RATE = 100


def thresholds(f):
    """nested parameter value; f: (group, quantity, index) -> number"""
    def rec(*items):
        return ("rec", "params", tuple(items))

    def pair(g, q):
        return rec(("warn", T.c(f(g, q, 0))), ("error", T.c(f(g, q, 1))))
    groups = []
    for g, qs in TH.items():
        items = [("periodicity", rec(("mean_error", pair(g, PMEAN)), ("standard_deviation", pair(g, PSD))))]
        if EMEAN in qs:
            items.append(("execution_time", rec(("mean_error", pair(g, EMEAN)), ("standard_deviation", pair(g, ESD)))))
        groups.append((g, rec(*items)))
    return rec(("threshold", rec(*groups)))


def normal(g, q, i):
    return TH[g][q][i]


def huge(g, q, i):
    return 1e9


class Stat:
    """statistics of one kind of cycle: deviations of the four quantities"""
    def __init__(self, **dev):
        self.dev = {PMEAN: 0.0, PSD: 0.0, EMEAN: 0.0, ESD: 0.0}
        self.dev.update(dev)


class Ent:
    def __init__(self, name, active=True, is_async=False, rate=RATE, read=None, write=None):
        self.name, self.active, self.is_async, self.rate = name, active, is_async, rate
        self.stats = {"read": read, "write": write}

    def expected(self, group):
        if not self.active:
            return OK
        lv = OK
        for st in self.stats.values():
            if st is None:
                continue
            for q, d in st.dev.items():
                if q in (PMEAN, PSD) and not (self.is_async or self.rate != RATE):
                    continue
                d = abs(d) if q == PMEAN else d
                w, e = TH[group][q]
                lv = max(lv, ERROR if d > e else WARN if d > w else OK)
        return lv


def data(avg, sd):
    return ("rec", "libstatistics_collector::moving_average_statistics::StatisticData",
            (("average", T.c(avg)), ("standard_deviation", T.c(sd)), ("min", T.c(avg - 50)), ("max", T.c(avg + 70)), ("sample_count", T.c(1000))))


class DInterp(CmInterp):
    ents = ()
    old = False
    fresh = None
    initialized = True
    cmstat = None

    def on_call(self, s, call):
        n = call.name
        if n in ("summary", "mergeSummary", "clearSummary"):
            self.ev_(s, n, tuple(call.args), call.line)
            return [(s, T.c(None))]
        if n in ("add", "addf") and "iagnostic" in call.fq:
            self.ev_(s, "add", tuple(call.args))
            return [(s, T.c(None))]
        if n == "get_components_status":
            return [(s, ("loc", ("sym", "STATUS")))]
        if n == "get_updated_list":
            return [(s, ("loc", C.RTLIST))]
        if n == "are_components_initialized":
            self.ev_(s, "init", self.initialized)
            return [(s, T.c(self.initialized))]
        if n == "is_old":
            self.ev_(s, "is_old")
            return [(s, T.c(self.old))]
        if n == "get_params" and self.fresh is not None:
            return [(s, ("rec", "params", (("diagnostics", self.fresh), ("handle_exceptions", T.c(True)))))]
        if n in ("get_statistics", "get_average", "get_standard_deviation", "get_statistics_const_ptr", "get_min", "get_max", "get_count") and "tatistics" in call.fq:
            r = self.rec_of(call.recv) or self.rec_of(call.recvv)
            if r is None:
                return None
            if n == "get_statistics_const_ptr" or n == "get_statistics" and "Data" in call.fq:
                l = ("tmp", r)
            if n.startswith("get_statistics"):
                return [(s, r)]
            return [(s, T.field(r, {"get_count": "sample_count"}.get(n, n[4:])))]
        return super().on_call(s, call)

    def rec_of(self, t):
        if t is None:
            return None
        txt = T.show(t)
        if "periodicity_stats_" in txt:
            return data(RATE + self.cmstat.dev[PMEAN], self.cmstat.dev[PSD]) if self.cmstat else None
        for x in T.subterms(t):
            if x[0] == "sym" and isinstance(x[1], str):
                for e in self.ents:
                    for d in ("read", "write"):
                        st = e.stats[d]
                        kind = None
                        if d == "read" and x[1] in ("exec " + e.name, "per " + e.name):
                            kind = "execution_time" if x[1].startswith("exec") else "periodicity"
                        if x[1] == f"{d} stats of {e.name}":
                            fl = [y[2] for y in T.subterms(t) if y[0] == "fld"]
                            kind = "periodicity" if "periodicity" in fl else "execution_time" if "execution_time" in fl else None
                        if kind is None or st is None:
                            continue
                        if kind == "periodicity":
                            return data(e.rate + st.dev[PMEAN], st.dev[PSD])
                        return data((1e6 / e.rate if e.is_async else 0.0) + st.dev[EMEAN], st.dev[ESD])
        return None


def outcome(ctx, fn, what, ctls=(), hw=(), setup=None, **kw):
    """[(level, messages, state)] of the returning paths; None if a path could not be followed"""
    ents = kw.pop("ents", ())
    I = DInterp(ctx.db, [Ctl(e.name, ACTIVE if e.active else INACTIVE, rate=0 if e.rate == RATE else e.rate, is_async=e.is_async) for e in ctls])
    I.rate = RATE
    I.ents = tuple(ctls) + tuple(hw)
    for k, v in kw.items():
        setattr(I, k, v)
    s = start(I, list(I.ctls.values()))
    m = ("vec", ())
    for e in hw:
        m = ("mapset", m, T.c(e.name), ("rec", "hardware_interface::HardwareComponentInfo", (
            ("name", T.c(e.name)), ("state", I.state_value(ACTIVE if e.active else INACTIVE)), ("is_async", T.c(e.is_async)), ("rw_rate", T.c(e.rate)),
            ("read_statistics", ("sym", f"read stats of {e.name}")), ("write_statistics", ("sym", f"write stats of {e.name}") if e.stats["write"] else T.NULL))))
    I.wr(s, ("sym", "STATUS"), m)
    I.wr(s, ("fld", T.deref(("fld", ("this",), "params_")), "diagnostics"), thresholds(kw.get("first", normal)))
    for e in hw:
        for d in ("read", "write"):
            I.assume(s, ("sym", f"{d} stats of {e.name}"), True)
    I.assume(s, ("fld", ("this",), "resource_manager_"), True)
    I.assume(s, ("fld", ("this",), "cm_param_listener_"), True)
    if setup:
        setup(I, s)
    outs = I.run(fn, args={0: ("loc", ("sym", "stat"))}, state=s)
    ctx.saw_interp(I, outs)
    res = []
    for k, s2, v in outs:
        if k != "ret":
            ctx.undecided(what, f"{k}: {v}")
            return None
        left = [a for a, b in s2.facts.items() if isinstance(b, bool) and has_sub(a, lambda t: T.is_num(t) and t[1] not in (0, 1)) and a[0] in ("<", "<=", ">", ">=")]
        if left:
            ctx.undecided(what, f"a comparison the analysis cannot evaluate: {T.show(left[0])[:120]}")
            return None
        level, msgs = None, []
        for e in events(s2):
            if e[0] not in ("summary", "mergeSummary", "clearSummary"):
                continue
            if e[0] == "clearSummary":
                level, msgs = OK, []
                continue
            a = e[1][0]
            lv = a[1] if a[0] == "c" else a[2] if a[0] == "enum" else None
            if not isinstance(lv, int):
                ctx.undecided(what, f"level {T.show(a)[:80]}")
                return None
            msg = e[1][1][1] if len(e[1]) > 1 and e[1][1][0] == "c" else None
            if e[0] == "summary":
                level, msgs = lv, [(lv, msg)]
            else:
                level = max(level or OK, lv)
                msgs.append((lv, msg))
        res.append((level, msgs, s2))
    if not res:
        ctx.undecided(what, "no path")
        return None
    return res


def judge(ctx, fn, what, want, key, offenders=(), **kw):
    res = outcome(ctx, fn, what, **kw)
    if res is None:
        return
    levels = {l for l, _, _ in res}
    if len(levels) > 1:
        # everything is known: a path that differs hangs on something the analysis does not evaluate
        if want in levels:
            ctx.undecided(what, f"levels {sorted(LV.get(l, str(l)) for l in levels)}: {[T.show(a)[:80] for _, _, s in res for a, b in s.facts.items() if isinstance(b, bool)][:3]}")
            return
    for level, msgs, s in res:
        if level is None:
            ctx.bad("a diagnostic callback reports a status", where(fn), what, key + "-none")
            continue
        rule = "an exceeded threshold is reported with its level" if level < want else "nothing worse is reported than what was found"
        ctx.check(level == want, rule, where(fn), f"{what}: reports {LV.get(level, level)}, expected {LV[want]}", key)
        if level == want and offenders and all(m is not None for _, m in msgs):
            for o in offenders:
                ctx.check(any(o in m.replace("]", " ").replace(",", " ").split() for _, m in msgs), "the report names what exceeds its thresholds", where(fn), f"{what}: {o} is not named in {[m for _, m in msgs]}", key + "-name")


def values(group, q):
    w, e = TH[group][q]
    for v, lv in ((w * 0.98, OK), (w * 1.02, WARN), (e * 0.98, WARN), (e * 1.02, ERROR), (e * 50, ERROR)):
        yield v, lv
        if q == PMEAN and v < 20:
            yield -v, lv


MODES = ((False, RATE), (False, 50), (True, RATE), (True, 50))


def mode(is_async, rate):
    return f"{'asynchronous' if is_async else 'synchronous'} at {rate} Hz"


def controllers(ctx):
    fn = ctx.db.one(C.CM + "controller_activity_diagnostic_callback")
    hw = [Ent("hw0", read=Stat())]
    g = "controllers"
    for a, r in MODES:
        for q in TH[g]:
            for v, lv in values(g, q):
                e = Ent("arm", is_async=a, rate=r, read=Stat(**{q: v}))
                want = e.expected(g)
                judge(ctx, fn, f"a controller {mode(a, r)} with a {q} of {v:g} (thresholds {TH[g][q]})", want, f"ctl-{q}", offenders=("arm",) if want else (), ctls=[e], hw=hw)
        # an unrelated quantity must not count: everything quiet
        judge(ctx, fn, f"a controller {mode(a, r)} without deviations", OK, "ctl-quiet", ctls=[Ent("arm", is_async=a, rate=r, read=Stat())], hw=hw)
    for q1, q2 in itertools.product(TH[g], repeat=2):
        for l1, l2 in ((WARN, ERROR), (ERROR, WARN), (ERROR, OK), (OK, WARN), (WARN, OK)):
            es = [Ent(n, is_async=True, rate=50, read=Stat(**{q: TH[g][q][l - 1] * 1.02} if l else {})) for n, q, l in (("arm", q1, l1), ("leg", q2, l2))]
            judge(ctx, fn, f"two controllers, one with {LV[l1]} for its {q1}, then one with {LV[l2]} for its {q2}", max(l1, l2), "ctl-pair", offenders=[e.name for e, l in zip(es, (l1, l2)) if l], ctls=es, hw=hw)
            if q1 != q2 and l1 and l2:
                e = Ent("arm", is_async=True, rate=50, read=Stat(**{q1: TH[g][q1][l1 - 1] * 1.02, q2: TH[g][q2][l2 - 1] * 1.02}))
                judge(ctx, fn, f"a controller with {LV[l1]} for its {q1} and {LV[l2]} for its {q2}", max(l1, l2), "ctl-both", offenders=("arm",), ctls=[e], hw=hw)
    bad = Stat(**{PMEAN: 500.0, ESD: 5000.0})
    judge(ctx, fn, "an inactive controller whose old statistics deviate", OK, "ctl-inactive", ctls=[Ent("arm", active=False, is_async=True, rate=50, read=bad)], hw=hw)
    judge(ctx, fn, "an inactive and an active deviating controller", ERROR, "ctl-inactive2", offenders=("leg",), ctls=[Ent("arm", active=False, read=Stat()), Ent("leg", is_async=True, rate=50, read=bad)], hw=hw)
    judge(ctx, fn, "no controller is loaded", WARN, "ctl-none", hw=hw)
    for hws, t in (([], "no hardware component"), ([Ent("hw0", active=False, read=Stat())], "no active hardware component")):
        judge(ctx, fn, f"{t} and no controller", ERROR, "ctl-nohw", hw=hws)
        judge(ctx, fn, f"{t} and a quiet controller", ERROR, "ctl-nohw", ctls=[Ent("arm", read=Stat())], hw=hws)
        judge(ctx, fn, f"{t} and a controller with a warning", ERROR, "ctl-nohw", ctls=[Ent("arm", read=Stat(**{ESD: 150.0}))], hw=hws)
    judge(ctx, fn, "one active and one inactive hardware component", OK, "ctl-hw", ctls=[Ent("arm", read=Stat())], hw=[Ent("hw0", active=False, read=Stat()), Ent("hw1", read=Stat())])
    refreshed(ctx, fn, "ctl", dict(ctls=[Ent("arm", read=Stat(**{ESD: 500.0}))], hw=hw))


def refreshed(ctx, fn, key, kw):
    """thresholds changed at run time apply to the same report"""
    for first, new, want in ((huge, normal, ERROR), (normal, huge, OK)):
        what = "thresholds were changed at run time"
        res = outcome(ctx, fn, what, old=True, fresh=thresholds(new), first=first, **kw)
        if res is None:
            continue
        for level, msgs, s in res:
            if any(e[0] == "is_old" for e in events(s)):
                ctx.check(level == want, "deviations are compared with the current thresholds", where(fn), f"{what}: reports {LV.get(level, level)}, expected {LV[want]}", key + "-fresh")


def hardware(ctx):
    fn = ctx.db.one(C.CM + "hardware_components_diagnostic_callback")
    g = "hardware_components"
    for a, r in MODES:
        for d in ("read", "write"):
            for q in TH[g]:
                for v, lv in values(g, q):
                    st = {"read": Stat(), "write": Stat()}
                    st[d] = Stat(**{q: v})
                    e = Ent("hw0", is_async=a, rate=r, **st)
                    want = e.expected(g)
                    judge(ctx, fn, f"a component {mode(a, r)} with a {d} {q} of {v:g} (thresholds {TH[g][q]})", want, f"hw-{d}-{q}", offenders=("hw0",) if want else (), hw=[e])
        judge(ctx, fn, f"a sensor {mode(a, r)} with an execution time deviation", WARN, "hw-sensor", offenders=("hw0",), hw=[Ent("hw0", is_async=a, rate=r, read=Stat(**{ESD: 150.0}))])
        judge(ctx, fn, f"a component {mode(a, r)} without deviations", OK, "hw-quiet", hw=[Ent("hw0", is_async=a, rate=r, read=Stat(), write=Stat())])
    for q1, q2 in itertools.product(TH[g], repeat=2):
        for l1, l2 in ((WARN, ERROR), (ERROR, WARN), (ERROR, OK), (OK, WARN), (WARN, OK)):
            s1, s2 = [Stat(**{q: TH[g][q][l - 1] * 1.02} if l else {}) for q, l in ((q1, l1), (q2, l2))]
            judge(ctx, fn, f"two components, one with {LV[l1]} for its read {q1}, then one with {LV[l2]} for its write {q2}", max(l1, l2), "hw-pair", offenders=[n for n, l in (("hw0", l1), ("hw1", l2)) if l],
                  hw=[Ent("hw0", is_async=True, rate=50, read=s1, write=Stat()), Ent("hw1", is_async=True, rate=50, read=Stat(), write=s2)])
            judge(ctx, fn, f"a component with {LV[l1]} for its read {q1} and {LV[l2]} for its write {q2}", max(l1, l2), "hw-both", offenders=("hw0",), hw=[Ent("hw0", is_async=True, rate=50, read=s1, write=s2)])
    bad = Stat(**{PMEAN: 500.0, ESD: 5000.0})
    judge(ctx, fn, "no component", ERROR, "hw-none")
    judge(ctx, fn, "only an inactive component", WARN, "hw-noactive", hw=[Ent("hw0", active=False, read=bad, write=bad)])
    judge(ctx, fn, "an inactive component whose old statistics deviate and a quiet active one", OK, "hw-inactive", hw=[Ent("hw0", active=False, read=bad, write=bad), Ent("hw1", read=Stat(), write=Stat())])
    judge(ctx, fn, "an inactive and a deviating active component", ERROR, "hw-inactive", offenders=("hw1",), hw=[Ent("hw0", active=False, read=Stat()), Ent("hw1", is_async=True, rate=50, read=Stat(), write=bad)])
    judge(ctx, fn, "the resource manager is not initialized", ERROR, "hw-init", initialized=False, hw=[Ent("hw0", read=Stat(), write=Stat())])
    judge(ctx, fn, "the resource manager is not initialized and has no components", ERROR, "hw-init", initialized=False)
    refreshed(ctx, fn, "hw", dict(hw=[Ent("hw0", read=Stat(**{ESD: 500.0}), write=Stat())]))


def manager(ctx):
    fn = ctx.db.one(C.CM + "controller_manager_diagnostic_callback")
    g = "controller_manager"

    def desc(x):
        return lambda I, s: I.wr(s, ("fld", ("this",), "robot_description_"), T.c(x))
    for init, d, base in ((True, "<robot/>", OK), (False, "", WARN), (False, "<robot/>", ERROR)):
        t = "initialized" if init else "waiting for a robot description" if not d else "with a description but not initialized"
        judge(ctx, fn, f"a manager {t}", base, "cm-state", initialized=init, cmstat=Stat(), setup=desc(d))
        for q in TH[g]:
            for v, lv in values(g, q):
                judge(ctx, fn, f"a manager {t} with a {q} of {v:g} (thresholds {TH[g][q]})", max(base, lv), f"cm-{q}", initialized=init, cmstat=Stat(**{q: v}), setup=desc(d))
    for l1, l2 in ((WARN, ERROR), (ERROR, WARN)):
        judge(ctx, fn, f"a manager with {LV[l1]} for its {PMEAN} and {LV[l2]} for its {PSD}", ERROR, "cm-both", cmstat=Stat(**{PMEAN: TH[g][PMEAN][l1 - 1] * 1.02, PSD: TH[g][PSD][l2 - 1] * 1.02}), setup=desc("<robot/>"))


def run(ctx):
    ctx.rule("The diagnostic callbacks are interpreted abstractly for statistics on both sides of every threshold of every monitored quantity, each group and quantity having thresholds of its own, for every execution mode, "
             "for one and two controllers or components and both orders of their deviations; the level reported (the highest merged) is compared with the highest level found.")
    ctx.assumption("a merged summary keeps the higher level, as in diagnostic_updater; a value equal to its threshold is not decided")
    ctx.pmap([("controllers", controllers, (ctx,)), ("hardware components", hardware, (ctx,)), ("controller manager", manager, (ctx,))])
