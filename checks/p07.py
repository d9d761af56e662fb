"""P07 joint-limit parameters: declaration, loading and updates, evaluated per parameter name and per pair of parameters."""
import itertools

from engine import terms as T
from engine.util import *
from checks.p04 import facts_text

BASE = "joint_limits.J"
GROUPS = {"has_position_limits": ["min_position", "max_position"], "has_velocity_limits": ["max_velocity"],
          "has_acceleration_limits": ["max_acceleration"], "has_deceleration_limits": ["max_deceleration"],
          "has_jerk_limits": ["max_jerk"], "has_effort_limits": ["max_effort"]}
NUM = [v for g in GROUPS.values() for v in g]
HARD = list(GROUPS) + NUM + ["angle_wraparound"]
SOFT = {"k_position": "k_position", "k_velocity": "k_velocity", "soft_lower_limit": "min_position", "soft_upper_limit": "max_position"}


def short(name):
    return name[len(BASE) + 1:] if name.startswith(BASE + ".") else name


class Params(Exact):
    """has_parameter answered from a given set; flags[name] gives the value of boolean parameters (None: symbolic)"""
    K = 3

    def setup(self, present, flags):
        self.present, self.flags = present, flags
        self.reads, self.decl = [], []
        return self

    def name_of(self, call, i):
        v = call.args[i] if i < len(call.args) else None
        return v[1] if v and T.isc(v) and isinstance(v[1], str) else None

    def on_call(self, s, call):
        if call.name in ("has_parameter",):
            n = self.name_of(call, 0)
            if n is None:
                return None
            return [(s, T.c(short(n) in self.present))]
        if call.name == "get_parameter" and len(call.args) == 1:
            n = self.name_of(call, 0)
            if n is None:
                return None
            self.reads.append((short(n), call.line))
            return [(s, ("param", short(n)))]
        if call.name in ("as_double", "as_bool", "get_value", "as_int", "as_string"):
            v = call.recvv
            if v is None or v[0] != "param":
                return None
            ty = {"as_double": "double", "as_bool": "bool"}.get(call.name) or (call.node.get("ta") or ["?"])[0]
            if ty == "bool" and self.flags.get(v[1]) is not None:
                return [(s, T.c(self.flags[v[1]]))]
            return [(s, ("pv", ty, v[1]))]
        if call.name == "auto_declare":
            n = self.name_of(call, 1)
            self.decl.append(((call.node.get("ta") or ["?"])[0], short(n) if n else None, call.args[2] if len(call.args) > 2 else None))
            return [(s, ("declared", n))]
        return None


def run(ctx):
    db = ctx.db
    ctx.rule("The parameter functions are interpreted with concrete parameter names: declaration is collected as a table, loading is evaluated for every "
             "subset of the parameters of each limit, updates for every single parameter and every ordered pair of parameters with symbolic old and new "
             "values; written fields, flags and the reported change must be those the names stand for.")
    declared = {}

    def declare():
        fn = [f for f in db.find("joint_limits::declare_parameters") if len(f["params"]) == 3][0]
        I = Params(db).setup(set(), {})
        outs = I.run(fn, args={0: T.c("J")})
        ctx.saw_interp(I, outs)
        if any(n is None for t, n, d in I.decl) or not I.decl:
            ctx.undecided("declarations", "a parameter name is not a constant")
            return
        for t, n, d in I.decl:
            declared[n] = t
        for n in HARD + ["has_soft_limits"] + list(SOFT):
            ctx.check(n in declared, f"{n} is declared", where(fn), "not declared", "declare-" + n)
            want = "bool" if n.startswith("has_") or n == "angle_wraparound" else "double"
            if n in declared:
                ctx.check(declared[n] == want, f"{n} is declared with its type", where(fn), declared[n], "declare-" + n)
        for t, n, d in I.decl:
            if t == "bool" and d is not None and T.isc(d):
                ctx.check(d[1] is False or d[1] == 0, f"{n} is off unless configured", where(fn), T.show(d), "default-" + n)
        # the helper itself: declares only what is missing, returns the value of that very parameter
        for h in db.find("auto_declare", file="joint_limits_rosparam.hpp"):
            class A(Exact):
                def on_call(self, s, call):
                    if call.name in ("declare_parameter", "get_parameter"):
                        s.trace += ((call.name, call.args[0]),)
                    return None
            A_ = A(db)
            for k, s, v in A_.run(h):
                if k != "ret":
                    continue
                nm = ("sym", h["params"][1]["n"])
                for e, a in s.trace:
                    ctx.check(a == nm, "declare-if-missing works on the parameter it was given", where(h), T.show(a), "auto-name")
                has = [b for a, b in s.facts.items() if a[0] == "call" and str(a[1]).endswith("has_parameter")]
                if has and has[0] is False:
                    ctx.check(any(e == "declare_parameter" for e, a in s.trace), "a missing parameter is declared", where(h), "not declared", "auto-missing")
                if has and has[0] is True:
                    ctx.check(not any(e == "declare_parameter" for e, a in s.trace), "a present parameter is not declared again", where(h), "declared again", "auto-twice")

    def final(I, s, out, f):
        l = ("fld", out, f)
        v = I.read(s, l)
        return None if v in (l, T.field(out, f)) else v

    def changed_fields(I, s, out):
        r = set()
        for l in s.heap:
            if l[0] == "fld" and l[1] == out and final(I, s, out, l[2]) is not None:
                r.add(l[2])
        return r

    def load_hard():
        fn = [f for f in db.find("joint_limits::get_joint_limits") if len(f["params"]) == 4 and "Soft" not in f["params"][3]["t"]][0]
        W = where(fn)
        out = ("sym", fn["params"][3]["n"])
        cfgs = []
        for h, vs in GROUPS.items():
            names = [h] + vs + (["angle_wraparound"] if h == "has_position_limits" else [])
            for k in range(len(names) + 1):
                for sub in itertools.combinations(names, k):
                    for b in ((True, False) if h in sub else (None,)):
                        cfgs.append((set(sub), {h: b, "angle_wraparound": None}))
        for b in (True, False):
            cfgs.append((set(HARD), {h: b for h in GROUPS}))
        cfgs.append((set(SOFT), {}))
        for present, flags in cfgs:
            I = Params(db).setup(present, flags)
            outs = I.run(fn, args={0: T.c("J")})
            ctx.saw_interp(I, outs)
            tag = "parameters {" + ", ".join(sorted(present)) + "}" + ("" if not flags else " with " + ", ".join(f"{a}={b}" for a, b in flags.items() if b is not None))
            for n, ln in I.reads:
                ctx.check(n in present, "a parameter is only read if it exists", where(fn, ln), f"{n} is read with {tag}", "read-missing-" + n)
                if declared:
                    ctx.check(n in declared, "a parameter is only read if it was declared", where(fn, ln), n, "read-undeclared-" + n)
            for k, s, v in outs:
                if k == "throw":
                    continue
                ok = v[1] if T.isc(v) else None
                w = changed_fields(I, s, out)
                if not present & set(HARD):
                    ctx.check(ok is not True and not w, "without any limit parameter loading fails and changes nothing", W, f"returns {T.show(v)}, writes {sorted(w)}", "load-none")
                    continue
                ctx.check(ok is not False, "loading succeeds if any limit parameter exists", W, f"{tag}: fails", "load-some")
                if not ok:
                    continue
                for h, vs in GROUPS.items():
                    x = final(I, s, out, h)
                    if h not in present:
                        ctx.check(x is None, f"{h} is left alone if it is not specified", W, f"{tag}: {'' if x is None else T.show(x)}", "load-" + h)
                        continue
                    want = bool(flags.get(h)) and all(q in present for q in vs)
                    if x is None:
                        ctx.bad(f"{h} is loaded", W, f"{tag}: not written", "load-" + h)
                    elif T.isc(x):
                        ctx.check(bool(x[1]) == want, f"{h} is enabled only by its own parameter and together with its values", W, f"{tag}: {h} becomes {x[1]}", "load-" + h)
                    elif x[0] == "pv" and x[2] != h:
                        ctx.bad(f"{h} is enabled only by its own parameter and together with its values", W, f"{tag}: {h} is set from {x[2]}", "load-" + h)
                    else:
                        ctx.undecided("load " + h, T.show(x))
                    for q in vs:
                        y = final(I, s, out, q)
                        if want:
                            judge(y, q, "double", W, tag, "load-")
                        elif y is not None and y[0] == "pv" and y[2] != q:
                            ctx.bad(f"{q} is loaded from the parameter of that name", W, f"{tag}: from {y[2]}", "load-" + q)
                if "has_position_limits" in present and "angle_wraparound" in present:
                    want = bool(flags.get("has_position_limits")) and {"min_position", "max_position"} <= present
                    y = final(I, s, out, "angle_wraparound")
                    if not want:
                        judge(y, "angle_wraparound", "bool", W, tag, "load-")
                    else:
                        ctx.check(y is None or y == T.c(False), "wrap-around is ignored for joints with position limits", W, f"{tag}: {'' if y is None else T.show(y)}", "load-wrap")

    def judge(y, name, ty, W, tag, kp):
        if y is None:
            ctx.bad(f"{name} is loaded", W, f"{tag}: not written", kp + name)
        elif y == ("pv", ty, name):
            ctx.ok(f"{name} is loaded from the parameter of that name", W)
        elif y[0] == "pv":
            ctx.bad(f"{name} is loaded from the parameter of that name", W, f"{tag}: {y[1]} value of {y[2]}", kp + name)
        elif T.isc(y):
            ctx.bad(f"{name} is loaded from the parameter of that name", W, f"{tag}: {T.show(y)}", kp + name)
        elif has_sub(y, lambda t: t[0] == "pv"):
            ctx.bad(f"{name} is loaded unchanged", W, f"{tag}: {T.show(y)}", kp + name)
        else:
            ctx.undecided(name, T.show(y))

    def load_soft():
        fn = [f for f in db.find("joint_limits::get_joint_limits") if len(f["params"]) == 4 and "Soft" in f["params"][3]["t"]][0]
        W = where(fn)
        out = ("sym", fn["params"][3]["n"])
        names = ["has_soft_limits"] + list(SOFT)
        for k in range(len(names) + 1):
            for sub in itertools.combinations(names, k):
                for b in ((True, False) if "has_soft_limits" in sub else (None,)):
                    present = set(sub)
                    I = Params(db).setup(present, {"has_soft_limits": b})
                    outs = I.run(fn, args={0: T.c("J")})
                    ctx.saw_interp(I, outs)
                    tag = f"soft parameters {{{', '.join(sub)}}}, has_soft_limits={b}"
                    for n, ln in I.reads:
                        ctx.check(n in present, "a parameter is only read if it exists", where(fn, ln), f"{n} is read with {tag}", "read-missing-" + n)
                    complete = b is True and len(sub) == len(names)
                    for kk, s, v in outs:
                        if kk == "throw":
                            continue
                        w = changed_fields(I, s, out)
                        if not complete:
                            ctx.check(not w, "soft limits change only if the specification is complete and enabled", W, f"{tag}: writes {sorted(w)}", "soft-partial")
                            ctx.check(v != T.c(True), "loading soft limits succeeds only if the specification is complete and enabled", W, tag, "soft-partial-ret")
                        else:
                            ctx.check(v != T.c(False), "a complete soft specification is loaded", W, tag, "soft-complete")
                            for p, f in SOFT.items():
                                y = final(I, s, out, f)
                                if y is not None and y[0] == "pv" and y[2] == p and y[1] == "double":
                                    ctx.ok(f"soft {f} comes from {p}", W)
                                elif y is None or y[0] == "pv" or T.isc(y):
                                    ctx.bad(f"soft {f} comes from {p}", W, f"{tag}: {'not written' if y is None else T.show(y)}", "soft-" + f)
                                else:
                                    ctx.undecided("soft " + f, T.show(y))

    class Upd(Exact):
        """two parameters with given names; their values are symbolic (flags may be fixed); bad: index of a wrongly typed one"""
        K = 4

        def setup(self, names, flags, bad=None):
            self.names, self.flagv, self.badp = names, flags, bad
            self.elems = tuple(("parm", i, n) for i, n in enumerate(names))
            return self

        def on_call(self, s, call):
            v = call.recvv
            if v is not None and v[0] == "parm":
                if call.name == "get_name":
                    return [(s, T.c(BASE + "." + v[2]))]
                if call.name in ("get_value", "as_double", "as_bool"):
                    ty = {"as_double": "double", "as_bool": "bool"}.get(call.name) or (call.node.get("ta") or ["?"])[0]
                    if v[1] == self.badp:
                        return None
                    if ty == "bool" and self.flagv.get(v[2]) is not None:
                        return [(s, T.c(self.flagv[v[2]]))]
                    return [(s, ("new", ty, v[1], v[2]))]
            return None

        def may_throw(self, s, call):
            v = call.recvv
            if self.badp is not None and v is not None and v[0] == "parm" and v[1] == self.badp and call.name in ("get_value", "as_double", "as_bool"):
                s.tags["thrown"] = True
                return ("rclcpp::exceptions::InvalidParameterTypeException",)
            return ()

    def updates(fn, names, target, isflag, prefix):
        """target: parameter -> field"""
        W = where(fn)
        out = ("sym", fn["params"][3]["n"])
        old = lambda f: ("fld", out, f)

        def go(seq, flags, bad=None):
            I = Upd(db).setup(seq, flags, bad)
            outs = I.run(fn, args={0: T.c("J"), 1: ("vec", tuple(("parm", i, n) for i, n in enumerate(seq)))})
            ctx.saw_interp(I, outs)
            return I, outs

        def assume(I, s, t, val):
            """the path under t == val, None if it contradicts the path"""
            t = t
            if T.isc(t):
                return s if bool(t[1]) == val else None
            r = I.truth(s, t)
            if r is not None:
                return s if r == val else None
            s = s.copy()
            x = I.assume(s, t, val)
            return x[0] if x else None

        def isnan(f):
            return ("isnan", f)

        for a in names:
            # a single parameter touches only its own field and carries its own value
            for fl in ((True, False) if isflag(a) else (None,)):
                I, outs = go((a,), {a: fl})
                for k, s, v in outs:
                    if k == "throw":
                        ctx.bad("updates never raise", W, f"{a}: {v}", prefix + "throw")
                        continue
                    w = changed_fields(I, s, out)
                    f = target[a]
                    ctx.check(w <= {f}, "a parameter only affects the limit it names", W, f"{a} also changes {sorted(w - {f})}", prefix + "other-" + a)
                    x = final(I, s, out, f)
                    if not isflag(a):
                        if x is not None and x[0] == "new":
                            ctx.check(x[3] == a, f"{a} carries its value into {f}", W, T.show(x), prefix + "value-" + a)
                        else:
                            s2 = assume(I, s, T.eq(old(f), ("new", "double", 0, a)), False)
                            if s2 is not None and x is None and all(q[0] in ("==", "val", "<", "<=") for q in s2.facts):
                                ctx.bad(f"{a} carries its value into {f}", W, f"{f} keeps its old value", prefix + "value-" + a)
                        s2 = assume(I, s, T.eq(old(f), ("new", "double", 0, a)), False)
                        if s2 is not None and x is not None and x[0] == "new":
                            r = v[1] if T.isc(v) else I.truth(s2, v)
                            ctx.check(r is not False, "a changed value is reported as a change", W, f"{a}: reports no change", prefix + "report-" + a)
                    elif fl is False:
                        if f in GROUPS or f == "angle_wraparound":
                            ctx.check(x is not None and (x == T.c(False)), f"disabling {a} clears it", W, f"{f} is {'unchanged' if x is None else T.show(x)}", prefix + "disable-" + a)
                            r = v[1] if T.isc(v) else I.truth(s, v)
                            s2 = assume(I, s, old(f), True)
                            if s2 is not None:
                                r = v[1] if T.isc(v) else I.truth(s2, v)
                                ctx.check(r is not False, "disabling a limit is reported as a change", W, f"{a}: reports no change", prefix + "report-off-" + a)
                    elif a in GROUPS:
                        nan = [q for q, b in s.facts.items() if q[0] in ("isnan", "call") and "isnan" in str(q[:2]) and b is True]
                        on = x == T.c(True) or (x is not None and I.truth(s, x) is True)
                        if on:
                            known = [q for q, b in s.facts.items() if q[0] in ("isnan", "call") and "isnan" in str(q[:2]) and b is False]
                            for q in GROUPS[a]:
                                ctx.check(any(T.contains(t, old(q)) for t in known), f"{a} is enabled only together with a value", W,
                                          f"{a} is enabled without checking that {q} is set ({facts_text(s)})", prefix + "enable-" + a)
                            r = v[1] if T.isc(v) else I.truth(s, v)
                            ctx.check(r is not False, "enabling a limit is reported as a change", W, f"{a}: reports no change", prefix + "report-on-" + a)
                        elif x == T.c(False) or x is None:
                            vals = [T.contains(t, old(q)) for q in GROUPS[a] for t in nan]
                            unordered = a == "has_position_limits" and I.truth(s, ("<", old("min_position"), old("max_position"))) is not True
                            ctx.check(any(vals) or unordered or any(q[0] not in ("val", "<", "<=", "==", "isnan", "call") for q in s.facts), f"{a} is enabled when its values are set", W,
                                      f"{a}=true is refused under {facts_text(s)}", prefix + "refuse-" + a)
        # every ordered pair: the change of either one is reported, whatever the other does
        nums = [a for a in names if not isflag(a)]
        for a, b in itertools.permutations(names, 2):
            if a not in nums and b not in nums:
                continue
            fls = [x for x in (a, b) if isflag(x)]
            for fl in ((True, False) if fls else (None,)):
                I, outs = go((a, b), {x: fl for x in fls})
                for k, s, v in outs:
                    if k == "throw":
                        continue
                    for i, p in enumerate((a, b)):
                        if p not in nums:
                            continue
                        f = target[p]
                        if fls and p in GROUPS.get(fls[0], ()):
                            pass
                        x = final(I, s, out, f)
                        if x is None or x[0] != "new":
                            continue
                        s2 = assume(I, s, T.eq(old(f), ("new", "double", i, p)), False)
                        o = (a, b)[1 - i]
                        if s2 is not None and o in nums:
                            s2 = assume(I, s2, T.eq(old(target[o]), ("new", "double", 1 - i, o)), True)
                        if s2 is None:
                            continue
                        r = v[1] if T.isc(v) else I.truth(s2, v)
                        ctx.check(r is not False, "a change is reported whatever else the update contains", W,
                                  f"update ({a}, {b}): {p} changes but no change is reported", prefix + "lost-" + p)
            h = next((x for x in (a, b) if x in GROUPS), None)
            q = b if h == a else a
            if h and q in GROUPS[h]:
                I, outs = go((a, b), {h: True})
                new = ("new", "double", (a, b).index(q), q)
                for k, s, v in outs:
                    if k == "throw":
                        continue
                    x = final(I, s, out, h)
                    on = x == T.c(True) or (x is not None and I.truth(s, x) is True)
                    tests = {T.contains(t, new): T.contains(t, old(q)) for t in s.facts if "isnan" in str(t[:2])}
                    if on or x == T.c(False):
                        stale = [t for t in s.facts if "isnan" in str(t[:2]) and T.contains(t, old(q)) and not T.contains(t, new)]
                        ctx.check(not stale, "values and their enabling flag may arrive in any order", W,
                                  f"update ({a}, {b}): {h} is judged by the old {q}", prefix + "order-" + h)
            # a wrongly typed first parameter must not hide the second
            if b in nums and a in nums:
                I, outs = go((a, b), {}, bad=0)
                for k, s, v in outs:
                    if k == "throw":
                        ctx.bad("a wrongly typed parameter does not abort the update", W, f"{a}: {v}", prefix + "type-throw")

    def upd_hard():
        fn = [f for f in db.find("joint_limits::check_for_limits_update") if "Soft" not in f["params"][3]["t"]][0]
        updates(fn, HARD, {n: n for n in HARD}, lambda n: n.startswith("has_") or n == "angle_wraparound", "update-")

    def upd_soft():
        fn = [f for f in db.find("joint_limits::check_for_limits_update") if "Soft" in f["params"][3]["t"]][0]
        updates(fn, list(SOFT), SOFT, lambda n: False, "softupdate-")

    def interface():
        fns = [x for x in db.find("JointLimiterInterface::init") if len(x["params"]) == 4 and "NodeParametersInterface" in x["params"][1]["t"]]
        if not fns:
            raise AnchorMissing("JointLimiterInterface::init")
        fn = fns[0]
        W = where(fn)

        class L(Exact):
            K = 2

            def want_inline(self, f, call):
                return call.name not in ("declare_parameters", "get_joint_limits", "check_for_limits_update")

            def on_call(self, s, call):
                n = call.name
                if n in ("declare_parameters", "get_joint_limits", "check_for_limits_update"):
                    if n == "check_for_limits_update":
                        s.tags["cb"] = True
                    nm = call.args[0] if call.args else None
                    lim = call.argl[3] if len(call.argl) > 3 else None
                    s.n += 1
                    r = ("fresh", s.n, n)
                    s.trace += ((n, nm, lim, r, call.line),)
                    if lim is not None and lim[0] != "tmp":
                        self.wr(s, lim, ("fresh", s.n, "limits"))
                    return [(s, r)]
                if n == "writeFromNonRT":
                    s.trace += (("publish", call.argl[0], call.args[0], None, call.line),)
                    return [(s, T.c(None))]
                if n == "add_on_set_parameters_callback" and call.args[0][0] == "lam":
                    s.trace += (("callback", None, None, None, call.line),)
                    return self.call_lambda(call.args[0], [], call.node, s)
                return None

        I = L(db)
        outs = I.run(fn)
        ctx.saw_interp(I, outs)
        for k, s, v in outs:
            if k != "ret":
                continue
            cb = [i for i, e in enumerate(s.trace) if e[0] == "callback"]
            pre = s.trace[:cb[0]] if cb else s.trace
            post = s.trace[cb[0] + 1:] if cb else ()
            for e in s.trace:
                n, nm, lim, r, ln = e
                if n in ("get_joint_limits", "check_for_limits_update") and nm and nm[0] == "idx" and lim and lim[0] == "idx":
                    ctx.check(nm[2] == lim[2], "limits are read for the joint they are stored for", where(fn, ln), f"joint {T.show(nm)} into {T.show(lim)}", "iface-index")
            names = [e[1] for e in pre if e[0] == "declare_parameters"]
            for e in pre:
                if e[0] == "get_joint_limits":
                    d = [x for x in pre if x[0] == "declare_parameters" and x[1] == e[1]]
                    ctx.check(d and s.trace.index(d[0]) < s.trace.index(e), "parameters are declared before they are read", where(fn, e[4]), "read before declared", "iface-order")
                if e[0] in ("declare_parameters", "get_joint_limits") and s.facts.get(e[3]) is False:
                    ok = v[1] if T.isc(v) else I.truth(s, v)
                    ctx.check(ok is False, "initialization fails if parameters cannot be declared or read", where(fn, e[4]), f"returns {T.show(v)} although {e[0]} failed", "iface-fail")
                elif e[0] in ("declare_parameters", "get_joint_limits") and e[3] not in s.facts and not any(T.contains(a, e[3]) for a in s.facts) and not T.contains(v, e[3]):
                    ctx.bad("initialization fails if parameters cannot be declared or read", where(fn, e[4]), f"the result of {e[0]} is ignored", "iface-fail")
            ups = [e for e in post if e[0] == "check_for_limits_update"]
            pubs = [e for e in post if e[0] == "publish"]
            yes = [e for e in ups if s.facts.get(e[3]) is True]
            anyt = [a for a, b in s.facts.items() if b is True and any(T.contains(a, e[3]) for e in ups)]
            if ups and (yes or anyt):
                ctx.check(pubs, "a changed limit reaches the limiter", where(fn, ups[0][4]), "the update is not published", "iface-publish")
            if cb and not pubs:
                for e in ups:
                    ctx.check(I.truth(s, e[3]) is False, "a change of any joint's limits reaches the limiter", where(fn, e[4]),
                              "the update of one joint can be forgotten: " + facts_text(s), "iface-forget")
            if cb and ups:
                jn = ("sym", fn["params"][0]["n"])
                mn, mx = count(s.facts, jn)
                done = {u[1][2] for u in ups if u[1] and u[1][0] == "idx" and u[1][1] == jn}
                if done and all(a[0] in ("<", "<=", "==", "val", "fresh", "or", "not") or T.contains(a, jn) for a in s.facts if has_sub(a, lambda t: t[0] == "fresh" and t[2] == "check_for_limits_update") or a[0] in ("<", "<=")):
                    ctx.check(mx == len(done), "every joint's limits are updated", where(fn, ups[0][4]), f"only {len(done)} of the joints are looked at ({facts_text(s)})", "iface-all")
            for e in pubs:
                for u in ups:
                    if u[2] is not None and u[2][0] == "idx":
                        ctx.check(e[1] == u[2][1] or T.contains(e[2], s.heap.get(u[2], ("?",))) or has_sub(e[2], lambda t: t[0] == "fresh" and t[2] == "limits"), "the updated limits are the ones published", where(fn, e[4]),
                                  f"publishes {T.show(e[1])}, the update was made in {T.show(u[2][1])}", "iface-published")
        en = db.one("JointLimiterInterface::enforce")

        class E(Exact):
            def on_call(self, s, call):
                if call.name == "on_enforce":
                    s.trace += (("enforce", self.read(s, ("fld", ("this",), "joint_limits_")), call.args),)
                    return [(s, ("enforced",))]
                return None
        I = E(db)
        outs = I.run(en)
        ctx.saw_interp(I, outs)
        for k, s, v in outs:
            ev = [e for e in s.trace if e[0] == "enforce"]
            if not ev:
                if k == "ret":
                    ctx.bad("enforcing limits runs the limiter", where(en), "on_enforce is not called", "iface-enforce")
                continue
            ctx.check(has_sub(ev[0][1], lambda t: t[0] == "call" and str(t[1]).endswith("readFromRT")) or has_sub(ev[0][1], lambda t: t == ("fld", ("this",), "updated_limits_")),
                      "each enforcement uses the latest published limits", where(en), f"limits are {T.show(ev[0][1])}", "iface-latest")
            ctx.check(v == ("enforced",) or not T.isc(v), "the limiter's result is returned", where(en), T.show(v), "iface-result")

    ctx.section("interface", interface)
    ctx.section("declare", declare)
    ctx.section("load", load_hard)
    ctx.section("load soft", load_soft)
    ctx.section("update", upd_hard)
    ctx.section("update soft", upd_soft)
