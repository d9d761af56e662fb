"""P10 invalid transmissions are rejected; what is accepted can be used."""
from engine import terms as T
from engine import order as O
from engine.util import *
from engine import trans as R


def run(ctx):
    db = ctx.db
    ctx.rule("Constructors, configuration and loaders are interpreted abstractly for concrete sizes and handle sets with symbolic numbers: every path on which a "
             "precondition is violated must end in an exception (creation, configuration) or an empty result (loading), every path with valid arguments must "
             "succeed, and the parameters of a loaded transmission must be those of the description, element by element.")

    def vec(n, k, vals=None):
        return ("vec", tuple((vals or {}).get(i, ("sym", f"{n}{i}")) for i in range(k)))

    def ctor(cls):
        name, n, _ = R.KIND[cls]
        fn = db.one(f"verif_tr::{cls}_make")
        cf = [f for f in db.find(f"{name}::{name}") if f.get("kind") == "ctor" and len(f["params"]) > 1][0]
        W = where(cf)
        nz = R.reductions(cls)
        I, outs = R.run(ctx, fn, R.params(cls))
        for k, s, v in outs:
            zero = [I.truth(s, T.eq(t, T.c(0))) for t in nz]
            if k == "ret":
                for t, z in zip(nz, zero):
                    # not deciding it on a path that returns means zero would be accepted
                    if z is None and any(T.contains(a, t) for a in s.facts):
                        ctx.undecided(f"{name} {T.show(t)}", "tested in an unknown way")
                        continue
                    ctx.check(z is False, f"{name}: a zero reduction is refused", W, f"{T.show(t)} == 0 is accepted", f"{cls}-zero-{T.show(t)}")
            else:
                ctx.check(any(z is not False for z in zero), f"{name}: non-zero reductions are accepted", W, f"raises {v} for non-zero reductions", f"{cls}-nonzero")
        # constant zeros and ones
        for i, t in enumerate(nz):
            for zero in (T.c(0), T.c(0.0)):
                if cls == "simple":
                    a = {"r": zero, "off": ("sym", "off")}
                else:
                    a = R.params(cls)
                    key, j = t[1][:2], int(t[1][2])
                    other = T.c(3)
                    for q in ("ar", "jr"):
                        a[q] = ("vec", tuple(zero if (q == key and k == j) else other for k in range(2)))
                I, outs = R.run(ctx, fn, a)
                for k, s, v in outs:
                    ctx.check(k == "throw", f"{name}: a zero reduction is refused", W, f"{t[1]} = 0 is accepted", f"{cls}-zero-{t[1]}")
        if n == 2:
            for q in ("ar", "jr", "off"):
                for k in (0, 1, 3):
                    a = R.params(cls)
                    a[q] = vec(q, k)
                    I, outs = R.run(ctx, fn, a, [("sym", q + str(i)) for i in range(k)] + nz)
                    for kk, s, v in outs:
                        ctx.check(kk == "throw", f"{name}: reductions and offsets need two elements", W, f"{q} with {k} elements is accepted", f"{cls}-size-{q}")

    def configure(cls):
        name, n, itfs = R.KIND[cls]
        W = where(db.one(f"{name}::configure"))

        def outcome(sj, sa, way="a2j", tag=""):
            fn = db.one(f"verif_tr::{cls}_{way}")
            a = dict(R.params(cls), j=sj, a=sa)
            I, outs = R.run(ctx, fn, a, R.reductions(cls))
            return [(k, s, v) for k, s, v in outs]

        def hs(side, specs):
            return R.handles(side, specs)

        def both(x):
            return [(i, x, True) for i in range(n)]

        def refuse(sj, sa, what, key):
            for way in ("a2j", "j2a"):
                for k, s, v in outcome(sj, sa, way):
                    w = sorted(l[1] for l in R.written(s))
                    ctx.check(k == "throw", f"{name}: configuring refuses {what}", W, "accepted", f"{cls}-conf-{key}")
                    ctx.check(not w, f"{name}: a refused configuration touches no value", W, f"{what}: writes {w}", f"{cls}-conf-write")

        def accept(sj, sa, what, key):
            for way in ("a2j", "j2a"):
                for k, s, v in outcome(sj, sa, way):
                    ctx.check(k == "ret", f"{name}: configuring accepts {what}", W, f"raises {v}", f"{cls}-conf-{key}")

        good_j, good_a = both("position") + both("velocity"), both("position") + both("velocity")
        empty = ("vec", ())
        refuse(empty, hs("a", good_a), "an empty set of joint handles", "emptyj")
        refuse(hs("j", good_j), empty, "an empty set of actuator handles", "emptya")
        refuse(empty, empty, "empty sets of handles", "empty")
        # number of names
        for m in (1, 2, 3):
            if m == n:
                continue
            sp = [(i, x, True) for x in ("position", "velocity") for i in range(m)]
            refuse(hs("j", sp), hs("a", good_a), f"handles of {m} joint{'s' * (m > 1)}", f"names-j{m}")
            refuse(hs("j", good_j), hs("a", sp), f"handles of {m} actuator{'s' * (m > 1)}", f"names-a{m}")
        if n == 1:
            sp = [(0, "position", True), (0, "velocity", True), (1, "effort", True)]
            for sp in (sp, sp[::-1], [sp[0], sp[2], sp[1]], [sp[2], sp[0], sp[1]], [sp[0], sp[2], sp[1], sp[1]]):
                refuse(hs("j", sp), hs("a", good_a), "handles of two joints in any order", "names-jmix")
                refuse(hs("j", good_j), hs("a", sp), "handles of two actuators in any order", "names-amix")
        else:
            sp = both("position") + both("velocity")
            for third in ([(2, "velocity", True)], [(2, "effort", True)], [(2, "temperature", True)]):
                refuse(hs("j", sp + third), hs("a", good_a), "a handle of a third joint", "names-j3")
                refuse(hs("j", good_j), hs("a", third + sp), "a handle of a third actuator", "names-a3")
            for k in range(2):
                one = [h for h in sp if h[0] == k]
                refuse(hs("j", one + [(k, "position", ("sym", "dup"))]), hs("a", good_a), "handles of one joint only", "names-j1")
                refuse(hs("j", good_j), hs("a", one + [(k, "position", ("sym", "dup"))]), "handles of one actuator only", "names-a1")
        # nothing usable
        un = [(i, "temperature", True) for i in range(n)]
        refuse(hs("j", un), hs("a", good_a), "joint handles of unsupported interfaces only", "unsupported-j")
        refuse(hs("j", good_j), hs("a", un), "actuator handles of unsupported interfaces only", "unsupported-a")
        nul = [(i, x, False) for x in ("position", "velocity") for i in range(n)]
        refuse(hs("j", nul), hs("a", good_a), "joint handles without values only", "null-j")
        refuse(hs("j", good_j), hs("a", nul), "actuator handles without values only", "null-a")
        # valid ones
        for x in itfs:
            accept(hs("j", both(x)), hs("a", both(x)), f"{x} handles", f"ok-{x}")
            accept(hs("j", both(x) + un), hs("a", un + both(x)), f"{x} handles beside unsupported ones", f"okmix-{x}")
        if cls == "diff":
            for x in itfs:
                y = "velocity" if x != "velocity" else "position"
                for i in range(2):
                    refuse(hs("j", both(y) + [(i, x, True)]), hs("a", both(x) + both(y)), f"a single joint {x} handle", f"single-j-{x}")
                    refuse(hs("j", both(x) + both(y)), hs("a", both(y) + [(i, x, True)]), f"a single actuator {x} handle", f"single-a-{x}")
                refuse(hs("j", both(x) + both(y) + [(0, x, ("sym", "dup"))]), hs("a", both(x) + both(y)), f"duplicated joint {x} handles", f"dup-j-{x}")
                refuse(hs("j", both(x) + both(y)), hs("a", both(x) + [(1, x, ("sym", "dup"))] + both(y)), f"duplicated actuator {x} handles", f"dup-a-{x}")
                for i in range(2):
                    refuse(hs("j", both(x) + both(y) + [(i, x, ("sym", "dup"))]), hs("a", both(y) + both(x) + [(1 - i, x, ("sym", "dup2"))]), f"duplicated {x} handles on both sides", f"dup-{x}")
                refuse(hs("j", both(x)), hs("a", both(y)), f"{x} on the joints against {y} on the actuators", f"pair-{x}")
        else:
            # weaker acceptance: whatever is accepted must convert without faults
            for x in itfs:
                y = "velocity" if x != "velocity" else "position"
                sets = [(both(x), both(y)), (both(x) + both(y), both(y))]
                if n == 2:
                    sets += [([(0, x, True)] + both(y), both(x) + both(y)), (both(x) + both(y), both(y) + [(1, x, True)]),
                             (both(x) + both(y) + [(0, x, True)], both(x) + both(y)), (both(y) + [(0, x, True), (1, x, False)], both(x) + both(y))]
                for sj, sa in sets:
                    for way in ("a2j", "j2a"):
                        for k, s, v in outcome(hs("j", sj), hs("a", sa), way):
                            if k == "throw":
                                ok = "::configure" in str(v)
                                if not ok and "Transmission" not in str(v):
                                    ok = True       # raised by a helper of the configuration
                                ctx.check(ok, f"{name}: an accepted configuration converts without faults", W, f"raises {v}", f"{cls}-accepted-fault")
                                continue
                            for l, t in R.written(s).items():
                                src = [a for a in T.subterms(t) if a[0] in ("idx",)]
                                ctx.check(not src, f"{name}: conversions only use configured handles", W, f"{l[1]} = {T.show(t)}", f"{cls}-accepted-range")

    def loader(cls):
        name, n, itfs = R.KIND[cls]
        fn = db.one(f"verif_tr::{cls}_load")
        lf = db.one(f"{name}Loader::load")
        W = where(lf)
        I = R.Trans(db)
        for nj in range(0, n + 2):
            for na in range(0, n + 2):
                info = ("rec", "hardware_interface::TransmissionInfo", (("joints", vec("J", nj)), ("actuators", vec("A", na))))
                I, outs = R.run(ctx, lf, {lf["params"][0]["n"]: info})
                enough = nj >= n and (na >= n or cls == "simple")
                for k, s, v in outs:
                    if k == "throw":
                        ctx.bad(f"{name}Loader: loading never raises", W, f"{nj} joints, {na} actuators: {v}", f"{cls}-load-raise")
                        continue
                    made = v[0] == "new"
                    none = v == T.NULL or v[0] == "vec" and not v[1]
                    if not made and not none:
                        ctx.undecided(f"{name}Loader result", T.show(v))
                        continue
                    tag = f"{nj} joints and {na} actuators"
                    if not enough:
                        ctx.check(none, f"{name}Loader: too few joints or actuators give no transmission", W, f"{tag}: a transmission is made", f"{cls}-load-few")
                        continue
                    zero = [t for t in redu(cls) if I.truth(s, T.eq(t, T.c(0))) is True]
                    if none:
                        if nj == n and na == max(n, 1):
                            ctx.check(bool(zero), f"{name}Loader: a valid description gives a transmission", W, f"{tag}: nothing is made although no reduction is zero", f"{cls}-load-valid")
                    else:
                        ctx.check(not zero, f"{name}Loader: a zero reduction gives no transmission", W, tag, f"{cls}-load-zero")
        # a description with a zero reduction
        for z in redu(cls):
            which, i = z[1][1][0], int(z[1][1][1])
            el = lambda s, k: ("rec", "x", (("mechanical_reduction", T.c(0.0) if (s, k) == (which, i) else T.c(2.0)), ("offset", T.c(0.5))))
            info = ("rec", "hardware_interface::TransmissionInfo", (("joints", ("vec", tuple(el("J", k) for k in range(n)))), ("actuators", ("vec", tuple(el("A", k) for k in range(n))))))
            I, outs = R.run(ctx, lf, {lf["params"][0]["n"]: info})
            for k, s, v in outs:
                if k == "throw":
                    ctx.bad(f"{name}Loader: loading never raises", W, str(v), f"{cls}-load-raise")
                elif v[0] == "new":
                    ctx.bad(f"{name}Loader: a zero reduction gives no transmission", W, f"{T.show(z)} = 0", f"{cls}-load-zero")
                else:
                    ctx.ok(f"{name}Loader: a zero reduction gives no transmission", W)
        # parameters end up where the description says
        info = ("rec", "hardware_interface::TransmissionInfo", (("joints", vec("J", n)), ("actuators", vec("A", n))))
        specs = [(i, x, True) for x in ("position", "velocity") for i in range(n)]
        I, outs = R.run(ctx, fn, {"info": info, "j": R.handles("j", specs), "a": R.handles("a", specs)}, redu(cls))
        ref, refo = R.run(ctx, db.one(f"verif_tr::{cls}_a2j"), dict(R.params(cls), j=R.handles("j", specs), a=R.handles("a", specs)), R.reductions(cls))
        env = rename(cls)
        for k, s, v in outs:
            w = R.written(s)
            for kr, sr, vr in refo:
                if kr != "ret":
                    continue
                for l, t in R.written(sr).items():
                    want = subst(t, env)
                    if l not in w:
                        ctx.bad(f"{name}Loader: the loaded transmission has the described parameters", W, f"{l[1]} is not converted", f"{cls}-load-param")
                    else:
                        ctx.check(O.poly(w[l]) == O.poly(want), f"{name}Loader: the loaded transmission has the described parameters", W,
                                  f"{l[1]} = {T.show(w[l])}, expected {T.show(want)}", f"{cls}-load-param")

    def fld(v, i, f):
        return T.field(("sym", v + str(i)), f)

    def redu(cls):
        if cls == "simple":
            return [fld("J", 0, "mechanical_reduction")]
        return [fld(v, i, "mechanical_reduction") for v in "AJ" for i in range(2)]

    def rename(cls):
        if cls == "simple":
            return {("sym", "r"): fld("J", 0, "mechanical_reduction"), ("sym", "off"): fld("J", 0, "offset")}
        e = {}
        for i in range(2):
            e[("sym", f"ar{i}")] = fld("A", i, "mechanical_reduction")
            e[("sym", f"jr{i}")] = fld("J", i, "mechanical_reduction")
            e[("sym", f"off{i}")] = fld("J", i, "offset")
        return e

    def subst(t, env):
        if t in env:
            return env[t]
        return tuple(subst(x, env) if isinstance(x, tuple) else x for x in t)

    tasks = []
    for cls in R.KIND:
        tasks += [(cls + " constructor", ctor, (cls,)), (cls + " configure", configure, (cls,)), (cls + " loader", loader, (cls,))]
    ctx.pmap(tasks)
