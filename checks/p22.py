"""P22 cyclic hardware failures are reported and isolated."""
from engine import terms as T
from engine import rm as R
from engine.util import *
from engine.hw import UNCONF, INACTIVE, ACTIVE, FINAL, NAMES, num


def run(ctx):
    ctx.rule("The cyclic read and write of the resource manager are interpreted abstractly over several components with every result (and exception) of every component, "
             "with and without a common hardware group and reduced rates: on every path the overall result, the list of failed components and the components served are "
             "compared with the results the components gave.")
    ctx.assumption("the order of the components is that of their lists")

    def cyclic(op, kinds, groups, throws, rate=0, named=None):
        W = where(ctx.db.one(R.RM + op))
        comps = [R.Comp(k, f"hw{i}", cmd=(f"c{i}",), st=(f"s{i}",), group=groups[i], throws=i in throws, rate=rate) for i, k in enumerate(kinds)]

        def setup(I, s):
            m = ("vec", ())
            for g in sorted(set(groups) - {""}):
                m = ("mapset", m, T.c(g), ("enum", I.rtq + "::OK", I.rt["OK"]))
            R.put(I, s, "hw_group_state_", m)
            I.wr(s, ("fld", ("fld", ("this",), "read_write_status"), "failed_hardware_names"), R.strs("old"))
            I.wr(s, ("fld", ("fld", ("this",), "read_write_status"), "result"), ("enum", I.rtq + "::ERROR", I.rt["ERROR"]))
        I, outs = R.run(ctx, op, comps, {1: ("loc", ("sym", "period"))}, setup)
        served = [c for c in comps if not (op == "write" and c.kind == "sensor")]
        full = False
        for k, s, v in outs:
            if k != "ret":
                continue
            ev = R.events(s)
            facts = s.facts
            res = {e[2]: e[3] for e in ev if e[0] == "res" and e[1] == op}
            ran = [e[2] for e in ev if e[0] == "io" and e[1] == op]
            what = f"{op} with results {res}" + (f" and groups {[c.group for c in served]}" if any(groups) else "")
            lock = {n: b for a, b in facts.items() if a[0] == "owns" for n in [c.name for c in served] if has_sub(a, lambda t, n=n: t == ("sym", "mutex of " + n))
                    for b in [b]}
            resources = [b for a, b in facts.items() if a[0] == "owns" and has_sub(a, lambda t: t[0] == "fld" and t[2] == "resources_lock_")]
            skipped = resources and not resources[0]
            if not rate:
                for c in served:
                    if not skipped and lock.get(c.name, True):
                        ctx.check(c.name in ran, "every component that is not locked is served", W, f"{what}: {c.name} is not asked to {op}", f"{op}-served")
            ctx.check(len(ran) == len(set(ran)), "a component is served once per cycle", W, f"{what}: {ran}", f"{op}-once")
            full = full or len(ran) == len(served)
            # expected outcome, in the order the components are served
            grp, bad, weak = {}, [], []
            for c in served:
                if c.name not in ran and (skipped or not lock.get(c.name, True)):
                    continue
                r = res.get(c.name, "OK")
                r = "ERROR" if r.startswith("throw") else r
                if c.group:
                    if r != "OK":
                        grp[c.group] = r
                    r = grp.get(c.group, "OK")
                if r == "ERROR" or (r == "DEACTIVATE" and op == "read"):
                    bad.append(c.name)
                elif r == "DEACTIVATE":
                    weak.append(c.name)
            r, l = T.field(v, "result"), T.field(v, "failed_hardware_names")
            if num(r) is None or l[0] != "vec" or any(x[0] != "c" for x in l[1]):
                ctx.undecided(what, T.show(v)[:200])
                continue
            names = [x[1] for x in l[1]]
            rn = {b: a for a, b in I.rt.items()}.get(num(r), "?")
            want = "ERROR" if bad else "DEACTIVATE" if weak else "OK"
            ctx.check(rn == want, "the cycle's result is that of the worst component", W, f"{what}: reports {rn} instead of {want}", f"{op}-result")
            for n in bad:
                ctx.check(n in names, "a failed component is named", W, f"{what}: names {names}", f"{op}-named")
            for n in names:
                ctx.check(n in bad or n in weak, "only failed components are named", W, f"{what}: names {n}", f"{op}-overnamed")
            ctx.check(len(names) == len(set(names)), "a failed component is named once", W, f"{what}: {names}", f"{op}-twice")
            errs = {e[2] for e in ev if e[0] == "life" and e[1] == "error"}
            for c in served:
                if c.name in bad:
                    ctx.check(c.name in errs, "a failed component's error handling runs", W, f"{what}: {c.name}", f"{op}-error")
                else:
                    ctx.check(c.name not in errs, "the error handling of the other components does not run", W, f"{what}: {c.name}", f"{op}-overerror")
            for c in served:
                if c.name in weak:
                    ctx.check(any(e[0] == "life" and e[1] == "deactivate" and e[2] == c.name for e in ev), "a component that asks for it is deactivated", W, f"{what}: {c.name}", f"{op}-deactivate")
                elif c.name not in bad:
                    ctx.check(not any(e[0] == "life" and e[2] == c.name for e in ev), "a component that works keeps its state", W, f"{what}: {c.name}", f"{op}-kept")
            for e in ev:
                if e[0] == "io" and not rate:
                    ctx.check(e[5][1] in (("sym", "period"), ("loc", ("sym", "period"))), "the cycle's period is passed to components running at the full rate", W,
                              f"{what}: {T.show(e[5][1])}", f"{op}-period")
        if not full:
            ctx.undecided(f"{op} {kinds}", "no path serving all components")

    jobs = []
    for op in ("read", "write"):
        kk = [("actuator", "system"), ("system", "system"), ("actuator", "actuator")] + ([("sensor", "system"), ("actuator", "sensor"), ("sensor", "sensor")] if op == "read" else [("actuator", "sensor")])
        for kinds in kk:
            jobs.append((f"{op} {kinds}", cyclic, (op, kinds, ("", ""), (0,))))
            jobs.append((f"{op} {kinds}", cyclic, (op, kinds, ("", ""), (1,))))
            jobs.append((f"{op} {kinds} group", cyclic, (op, kinds, ("g", "g"), (0,))))
            jobs.append((f"{op} {kinds} groups", cyclic, (op, kinds, ("g", "h"), (1,))))
            jobs.append((f"{op} {kinds} slower", cyclic, (op, kinds, ("", ""), (), 50)))
        jobs.append((f"{op} three", cyclic, (op, ("actuator", "system", "system"), ("", "", ""), ())))
    ctx.pmap(jobs)
