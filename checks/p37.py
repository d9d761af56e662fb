"""P37 chainable controllers: exported interfaces are uniquely named under the controller, references come from one source."""
import itertools
from engine import terms as T
from engine import base as B
from engine.base import *
from engine.util import *

Q = "controller_interface::ChainableControllerInterface::"
WHERE = "controller_interface/src/chainable_controller_interface.cpp"
TIME, PERIOD = ("sym", "time"), ("sym", "period")


def itf(prefix, name, i):
    return ("sym", f"itf|{prefix}|{name}|{i}")


class ChainInterp(BaseInterp):
    lists = {}            # user callback -> vector it returns
    verdict = True        # of on_set_chained_mode
    updates = {}          # of update functions -> enum name

    def ident(self, s, v):
        d = 0
        while v is not None and d < 8:
            if v[0] == "sym" and v[1].startswith("itf|"):
                return v
            if v[0] in ("tmp", "loc", "addr", "deref", "new"):
                v = v[1] if v[0] != "loc" else self.read(s, v[1])
            elif v[0] in ("make", "call") and len(v) > 2 and isinstance(v[2], tuple):
                v = v[2]
            elif v in s.heap:
                v = s.heap[v]
            elif v[0] == "idx":
                b = self.ident_vec(s, v)
                if b is None:
                    return None
                v = b
            else:
                return None
            d += 1
        return None

    def ident_vec(self, s, v):
        x = self.read(s, v)
        return x if x != v else None

    def truth_hook(self, s, t):
        if t[0] == "==" and len(t) == 3:
            a, b = self.ident(s, t[1]), self.ident(s, t[2])
            if a is not None and b is not None:
                return a == b
        if t[0] == "has" and t[1][0] == "vec":
            x, ys = self.ident(s, t[2]), [self.ident(s, y) for y in t[1][1]]
            if x is not None and None not in ys:
                return x in ys
        return super().truth_hook(s, t)

    def on_call(self, s, call):
        n = call.name
        if n in self.lists:
            self.ev_(s, "export", n, tuple(self.read(s, ("fld", ("this",), f)) for f in self.watch))
            return [(s, ("vec", self.lists[n]))]
        if n == "make_shared" and ("StateInterface" in repr(call.node.get("t", "")) or "CommandInterface" in repr(call.node.get("t", ""))) and call.args:
            x = self.ident(s, call.args[0]) or self.ident(s, call.argl[0])
            if x is not None:
                return [(s, x)]
        if n in ("get_prefix_name", "get_name", "get_interface_name") and call.recv is not None:
            x = self.ident(s, call.recv) or (self.ident(s, call.recvv) if call.recvv is not None else None)
            if x is not None:
                _, p, m, _ = x[1].split("|")
                return [(s, T.c({"get_prefix_name": p, "get_interface_name": m}.get(n, f"{p}/{m}")))]
            if n == "get_name":
                return [(s, T.c("ctl"))]
        if n in self.updates:
            self.ev_(s, "update", n, tuple(call.args), self.snap(s))
            out = []
            for r in self.updates[n]:
                s2 = s.copy()
                self.ev_(s2, "outcome", n, r)
                out.append((s2, ("enum", "controller_interface::return_type::" + r, self.rt[r])))
            return out
        if n == "on_set_chained_mode" and self.verdict is not None:
            self.ev_(s, "ask", call.args[0], self.read(s, ("fld", ("this",), "in_chained_mode_")))
            return [(s, T.c(self.verdict))]
        return super().on_call(s, call)


def interp(ctx, **kw):
    I = ChainInterp(ctx.db)
    I.cr = CR
    for k, v in kw.items():
        setattr(I, k, v)
    return I


def fn(db, name):
    return db.one(Q + name)


def updated(ctx):
    need_fields(ctx.db, Q[:-2], "in_chained_mode_")
    n = 0
    for chained in (False, True):
        I = interp(ctx, updates={k: ("OK", "ERROR") for k in ("update_reference_from_subscribers", "update_and_write_commands")})
        s = B.start(I, ACTIVE)
        I.wr(s, ("fld", IMPL, "lifecycle_id_"), T.c(ACTIVE))
        I.wr(s, ("fld", ("this",), "in_chained_mode_"), T.c(chained))
        outs = I.run(fn(ctx.db, "update"), args={0: TIME, 1: PERIOD}, state=s)
        ctx.saw_interp(I, outs)
        for kind, s, v in outs:
            if kind != "ret" or v is None or v[0] != "enum":
                ctx.undecided("update", f"{kind}: {T.show(v) if isinstance(v, tuple) else v}"[:200])
                continue
            n += 1
            ev = B.events(s)
            calls = [e[1] for e in ev if e[0] == "update"]
            res = {e[1]: e[2] for e in ev if e[0] == "outcome"}
            z = f"chained={chained}, calls {calls} with results {list(res.values())}, returns {T.show(v)}"
            R, W = "update_reference_from_subscribers", "update_and_write_commands"
            if chained:
                ctx.check(R not in calls, "in chained mode the references come only from the preceding controller", WHERE, z)
            else:
                ctx.check(calls[:1] == [R], "outside chained mode the references are taken from the subscribers before commands are computed", WHERE, z)
            if not chained and res.get(R) != "OK":
                ctx.check(W not in calls, "no commands are written from references that could not be updated", WHERE, z)
                ctx.check(v == ("enum", "controller_interface::return_type::" + res.get(R, "?"), v[2]), "a failed reference update is reported", WHERE, z)
            else:
                ctx.check(calls.count(W) == 1, "commands are computed exactly once per update", WHERE, z)
                if W in res:
                    ctx.check(v[1].endswith("::" + res[W]), "the outcome of the update is reported", WHERE, z)
            ctx.check(all(tuple(e[2]) == (TIME, PERIOD) for e in ev if e[0] == "update"), "both phases get the time and period of the cycle", WHERE, z)
    if not n:
        ctx.undecided("update", "no path understood")


def mode(ctx):
    n = 0
    for lc in (UNCONF, INACTIVE, ACTIVE):
        for was, req, verdict in itertools.product((False, True), (False, True), (False, True)):
            I = interp(ctx, verdict=verdict)
            s = B.start(I, lc)
            I.wr(s, ("fld", ("this",), "in_chained_mode_"), T.c(was))
            I.wr(s, ("fld", IMPL, "lifecycle_id_"), T.c(lc))
            outs = I.run(fn(ctx.db, "set_chained_mode"), args={0: T.c(req)}, state=s)
            ctx.saw_interp(I, outs)
            for kind, s, v in outs:
                now = I.read(s, ("fld", ("this",), "in_chained_mode_"))
                if kind != "ret" or not T.isc(v) or not T.isc(now):
                    ctx.undecided("set_chained_mode", f"{kind}")
                    continue
                n += 1
                ask = [e for e in B.events(s) if e[0] == "ask"]
                z = f"state {lc}, chained mode {was}, requested {req}, controller {'accepts' if verdict else 'refuses'}: mode {now[1]}, result {v[1]}"
                if lc == ACTIVE:
                    ctx.check(now[1] == was and not v[1], "the chained mode of an active controller does not change", WHERE, z)
                    ctx.check(not ask, "an active controller is not asked to change its mode", WHERE, z)
                else:
                    ctx.check(len(ask) == 1 and ask[0][1] == T.c(req), "the controller is asked once for the requested mode", WHERE, z)
                    ctx.check(v[1] == verdict, "the controller's answer to a mode change is reported", WHERE, z)
                    ctx.check(now[1] == (req if verdict else was), "the chained mode changes exactly when the controller accepts", WHERE, z)
    if not n:
        ctx.undecided("set_chained_mode", "no path understood")
    I = interp(ctx)
    for was in (False, True):
        s = B.start(I, ACTIVE)
        I.wr(s, ("fld", ("this",), "in_chained_mode_"), T.c(was))
        for kind, s, v in I.run(fn(ctx.db, "is_in_chained_mode"), state=s):
            if kind == "ret" and T.isc(v):
                ctx.check(v[1] == was, "the reported chained mode is the one that was set", WHERE, f"{was} reported as {v[1]}")


KINDS = {"state": ("export_state_interfaces", "on_export_state_interfaces", "on_export_state_interfaces_list",
                   "exported_state_interfaces_", "exported_state_interface_names_", "ordered_exported_state_interfaces_"),
         "reference": ("export_reference_interfaces", "on_export_reference_interfaces", "on_export_reference_interfaces_list",
                       "exported_reference_interfaces_", "exported_reference_interface_names_", "ordered_exported_reference_interfaces_")}


def exported(ctx, kind_, old, new, values=None):
    f, cb1, cb2, fm, fn_, fo = KINDS[kind_]
    need_fields(ctx.db, Q[:-2], fm, fn_, fo, "reference_interfaces_")
    a = tuple(itf(p, m, i) for i, (p, m) in enumerate(old))
    b = tuple(itf(p, m, 10 + i) for i, (p, m) in enumerate(new))
    I = interp(ctx, lists={cb1: a, cb2: b}, watch=(fm, fn_, fo))
    s = B.start(I, UNCONF)
    w = lambda x, v: I.wr(s, ("fld", ("this",), x), v)
    w(fm, ("mapset", ("vec", ()), T.c("ctl/stale"), itf("ctl", "stale", 90)))
    w(fn_, ("vec", (T.c("ctl/stale"),)))
    w(fo, ("vec", (itf("ctl", "stale", 90),)))
    nv = len(old) if values is None else values
    w("reference_interfaces_", ("vec", (T.c(0.0),) * nv))
    outs = I.run(fn(ctx.db, f), state=s)
    ctx.saw_interp(I, outs)
    names = [f"{p}/{m}" for p, m in old + new]
    bad = any(not p.startswith("ctl") for p, m in old + new)
    dup = len(set(names)) != len(names)
    short = kind_ == "reference" and nv != len(old)
    n = 0
    for kind, s, v in outs:
        z = f"{kind_} interfaces {[p + '/' + m for p, m in old]} by the old and {[p + '/' + m for p, m in new]} by the list method" + (f", {nv} reference values" if short else "")
        if any(isinstance(x, tuple) and x[0] in ("fresh", "mut") for x in s.facts):
            ctx.undecided(f, "a path depends on something not understood")
            continue
        exp = [e for e in B.events(s) if e[0] == "export"]
        for e in exp:
            if e[2][1][0] == "vec":
                ctx.check(e[2][1] == ("vec", ()), "names of an earlier configuration are gone when the controller exports again", WHERE, z + f": {T.show(e[2][1])} left")
        if bad or dup or short:
            why = "outside the controller's name" if bad else "duplicate names" if dup else "wrong number of reference values"
            if kind == "ret":
                ctx.check(False, f"interfaces with invalid exports are rejected ({why})", WHERE, z)
            elif kind == "throw":
                ctx.ok(f"interfaces with invalid exports are rejected ({why})", WHERE)
                n += 1
            continue
        if kind != "ret":
            ctx.undecided(f, f"{z}: {kind} {s.exc}")
            continue
        n += 1
        got = v if v[0] != "loc" else I.read(s, v[1])
        want = list(a + b)
        if got[0] != "vec":
            ctx.undecided(f, f"{z}: result {T.show(got)}"[:250])
            continue
        ids = [I.ident(s, x) for x in got[1]]
        if None in ids:
            ctx.undecided(f, f"{z}: result {T.show(got)}"[:250])
            continue
        ctx.check(ids == want, "every exported interface reaches the controller manager, once and in order", WHERE, z + f": returned {[x[1].split('|')[2] for x in ids]}")
        nm = I.read(s, ("fld", ("this",), fn_))
        if nm[0] == "vec" and all(T.isc(x) for x in nm[1]):
            ctx.check([x[1] for x in nm[1]] == names, "the controller keeps the names of exactly what it exports", WHERE, z + f": names {[x[1] for x in nm[1]]}")
        od = I.read(s, ("fld", ("this",), fo))
        if od[0] == "vec":
            oi = [I.ident(s, x) for x in od[1]]
            if None not in oi:
                ctx.check(oi == want, "the controller keeps exactly the interfaces it exports, in order", WHERE, z + f": kept {[x[1].split('|')[2] for x in oi]}")
        m = I.read(s, ("fld", ("this",), fm))
        keys = T.mapkeys(m)
        if keys is not None:
            ctx.check(sorted(x[1] for x in keys) == sorted(names), "the controller finds exactly the interfaces it exports by name", WHERE, z + f": keys {sorted(x[1] for x in keys)}")
            for k, x in zip(names, want):
                y = I.ident(s, T.index(m, T.c(k)))
                if y is not None:
                    ctx.check(y == x, "a name denotes the interface exported under it", WHERE, z + f": {k} denotes {y[1]}")
    if not n:
        ctx.undecided(f, "no path understood")


def exports(ctx):
    good = [("ctl", "a"), ("ctl", "b"), ("ctl/x", "c")]
    cases = [([], []), (good[:1], []), ([], good[:1]), (good[:2], []), ([], good[:2]), (good[:2], good[2:]), (good[:1], good[1:]), (good, [])]
    badp = [([("other", "a")], []), ([], [("other", "a")]), (good[:1] + [("other", "b")], []), ([], good[:1] + [("other", "b")]), (good[:1], [("x/ctl", "b")]), ([("x/ctl", "b")], good[:1])]
    dups = [([good[0], good[0]], []), ([], [good[0], good[0]]), ([good[0]], [good[0]]), (good[:2], [good[1]]), ([good[0], good[1], good[0]], [])]
    for k in KINDS:
        for a, b in cases + badp + dups:
            exported(ctx, k, list(a), list(b))
    for nv in (0, 1, 3):
        exported(ctx, "reference", good[:2], [], nv)
    exported(ctx, "reference", good[:1], good[1:], 3)


def defaults(ctx):
    """the default export: one interface per name, each with storage of its own"""
    for k, vals in (("state", "state_interfaces_values_"), ("reference", "reference_interfaces_")):
        _, cb, _, _, names, _ = KINDS[k]
        for n in (0, 1, 2, 3):
            for old in (0, 2):
                I = interp(ctx)
                s = B.start(I, UNCONF)
                I.wr(s, ("fld", ("this",), names), ("vec", tuple(T.c(f"n{i}") for i in range(n))))
                I.wr(s, ("fld", ("this",), vals), ("vec", (T.c(1.0),) * old))
                I.want_inline = lambda f, c: "StateInterface" not in f["q"] and "CommandInterface" not in f["q"] and "Handle" not in f["q"]
                outs = I.run(fn(ctx.db, cb), state=s)
                ctx.saw_interp(I, outs)
                for kind, s, v in outs:
                    got = v if v[0] != "loc" else I.read(s, v[1])
                    z = f"{n} names, {old} values before"
                    if kind != "ret" or got[0] != "vec":
                        ctx.undecided(cb, f"{z}: {kind} {T.show(got)}"[:250])
                        continue
                    ctx.check(len(got[1]) == n, "the default export has one interface per name", WHERE, f"{k}: {z}: {len(got[1])} interfaces")
                    st = []
                    for i, x in enumerate(got[1]):
                        sub = list(T.subterms(x))
                        nm = [y[1] for y in sub if T.isc(y) and isinstance(y[1], str)]
                        pos = [y for y in sub if y[0] == "idx" and T.isc(y[2])]
                        if x[0] not in ("make", "obj", "upd", "rec") or not nm:
                            ctx.undecided(cb, f"{z}: interface {T.show(x)}"[:250])
                            continue
                        ctx.check("ctl" in nm and f"n{i}" in nm, "the default export uses the controller's name and each name once", WHERE, f"{k}: {z}: interface {i} is {nm}")
                        st += [y[2][1] for y in pos[:1]]
                    if len(st) == n:
                        ctx.check(st == list(range(n)), "the default export gives every interface a value of its own", WHERE, f"{k}: {z}: values {st}")
                    cur = I.read(s, ("fld", ("this",), vals))
                    if cur[0] == "vec":
                        ctx.check(len(cur[1]) == n, "the default export has a value per name", WHERE, f"{k}: {z}: {len(cur[1])} values")


def run(ctx):
    ctx.where = WHERE
    ctx.rule("update(), set_chained_mode(), export_state_interfaces() and export_reference_interfaces() are interpreted for every combination of chained mode, lifecycle state, controller answer and result, "
             "and for exported lists of up to three interfaces through either export method (valid, outside the controller's name, duplicate within and across the methods, wrong number of reference values), each starting with leftovers of an earlier configuration")
    ctx.assumption("interface names follow prefix/name (P11..P13 cover the interface objects)")
    for f in (updated, mode, exports, defaults):
        ctx.section(f.__name__, f, ctx)
