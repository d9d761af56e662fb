"""P09 transmissions: the conversion maps as exact rational functions."""
from engine import terms as T
from engine import order as O
from engine.util import *
from engine import trans as R


def run(ctx):
    db = ctx.db
    ctx.rule("Creation, configuration and one conversion of every transmission are interpreted abstractly for all combinations of provided interfaces, with "
             "symbolic values, offsets and non-zero reductions; the value each handle receives is normalised to an exact Laurent polynomial. The maps must be "
             "mutually inverse, place offsets on joint positions only, follow the documented ratio, be power-preserving, and write nothing but the target side.")
    ctx.assumption("arithmetic over the reals: rounding, overflow and non-finite values are not modelled")
    ctx.assumption("the value storages of distinct handles do not overlap")

    def conv(cls, way, specs_j, specs_a):
        fn = db.one(f"verif_tr::{cls}_{way}")
        a = dict(R.params(cls), j=R.handles("j", specs_j), a=R.handles("a", specs_a))
        return R.run(ctx, fn, a, R.reductions(cls))

    def one(cls):
        name, n, itfs = R.KIND[cls]
        src = db.one(f"{name}::actuator_to_joint")
        back = db.one(f"{name}::joint_to_actuator")
        Wf, Wb = where(src), where(back)
        rng = range(n)

        def full(sub, rev=False, idx=None):
            out = [(i, x, True) for i in (idx or rng) for x in sub]
            return out[::-1] if rev else out

        def results(way, sj, sa, tag):
            """[written maps] of every path; alarms on a raise"""
            W = Wf if way == "a2j" else Wb
            I, outs = conv(cls, way, sj, sa)
            res = []
            for k, s, v in outs:
                if k == "throw":
                    ctx.bad(f"{name}: a valid set of handles converts", W, f"{tag}: raises {v}", f"{cls}-{way}-raise")
                    continue
                w = R.written(s)
                to, fr = ("j", "a") if way == "a2j" else ("a", "j")
                for l, x in w.items():
                    if l[1][0] == fr:
                        ctx.bad(f"{name}: a conversion writes only its target side", W, f"{tag}: writes {l[1]}", f"{cls}-{way}-side")
                    und = [t for t in T.subterms(x) if t[0] in ("unk", "call", "ret", "fresh", "mut")]
                    if und:
                        ctx.undecided(f"{name} {tag} {l[1]}", T.show(x)[:200])
                        w = None
                        break
                if w is not None:
                    res.append(w)
            return res

        maps = {}

        def maps_for(sub, tag, rev):
            f = results("a2j", full(sub, rev), full(sub, not rev), tag)
            b = results("j2a", full(sub, not rev), full(sub, rev), tag)
            return f, b

        subsets = [([x], f"only {x}") for x in itfs] + [(itfs, "all interfaces"), (itfs[:2], "position and velocity"), (itfs[1:3], "velocity and effort")]
        for sub, tag in subsets:
            for rev in (False, True):
                fs, bs = maps_for(sub, tag, rev)
                for f in fs:
                    for x in sub:
                        for i in rng:
                            l = R.val("j", x, i)
                            if l not in f:
                                ctx.bad(f"{name}: every {x} provided on both sides is converted", Wf, f"{tag}: joint {x} {i + 1} is not written", f"{cls}-a2j-missing-{x}")
                            else:
                                ctx.ok(f"{name}: every {x} provided on both sides is converted", Wf)
                        dep(cls, name, x, f, "j", "a", n, Wf, tag)
                    other = [l for l in f if l[1].split(".")[1] not in sub]
                    ctx.check(not other, f"{name}: nothing else is written", Wf, f"{tag}: {other}", f"{cls}-a2j-extra")
                for b in bs:
                    for x in sub:
                        got = [R.val("a", x, i) in b for i in rng]
                        if x == "absolute_position":
                            if any(got) and not all(got):
                                ctx.bad(f"{name}: {x} is converted for all actuators or none", Wb, tag, f"{cls}-j2a-partial-{x}")
                        else:
                            ctx.check(all(got), f"{name}: every {x} provided on both sides is converted back", Wb, f"{tag}: an actuator {x} is not written", f"{cls}-j2a-missing-{x}")
                        dep(cls, name, x, b, "a", "j", n, Wb, tag)
                    other = [l for l in b if l[1].split(".")[1] not in sub]
                    ctx.check(not other, f"{name}: nothing else is written", Wb, f"{tag}: {other}", f"{cls}-j2a-extra")
                for f in fs:
                    for b in bs:
                        for x in sub:
                            inverse(cls, name, n, x, f, b, Wf, Wb, tag)
                for f in fs:
                    for x in sub:
                        shape(cls, name, n, x, f, Wf, tag)
                maps.setdefault(tag, (fs, bs))
        # power: effort-like maps against the velocity map
        for x in itfs[2:]:
            if x == "absolute_position":
                continue
            for f in maps["all interfaces"][0]:
                for b in maps["all interfaces"][1]:
                    power(cls, name, n, x, f, b, Wb)
        # one side only
        for x in itfs:
            y = "velocity" if x != "velocity" else "position"
            for way, W in (("a2j", Wf), ("j2a", Wb)):
                for drop in ("j", "a"):
                    sj = full([y] if drop == "j" else [x, y])
                    sa = full([y] if drop == "a" else [x, y])
                    for w in results(way, sj, sa, f"{x} on one side"):
                        bad = [l[1] for l in w if l[1].split(".")[1] == x]
                        ctx.check(not bad, f"{name}: an interface of one side only is not written", W, f"{x} missing on the {'joint' if drop == 'j' else 'actuator'} side, writes {bad}", f"{cls}-{way}-oneside-{x}")
                    # the same with handles that refer to no value
                    sj = full([y]) + [(i, x, drop != "j") for i in rng]
                    sa = full([y]) + [(i, x, drop != "a") for i in rng]
                    for w in results(way, sj, sa, f"{x} without a value on one side"):
                        bad = [l[1] for l in w if l[1].split(".")[1] == x]
                        ctx.check(not bad, f"{name}: an interface without a value on one side is not written", W, f"writes {bad}", f"{cls}-{way}-null-{x}")

    def dep(cls, name, x, w, to, fr, n, W, tag):
        for i in range(n):
            t = w.get(R.val(to, x, i))
            if t is None:
                continue
            used = {a[1] for a in T.subterms(t) if a[0] == "sym" and a[1][:2] in ("j.", "a.")}
            alien = [u for u in used if u.split(".")[1] != x or u[0] != fr]
            ctx.check(not alien, f"{name}: {x} is computed from {x} alone", W, f"{tag}: from {alien}", f"{cls}-{to}-dep-{x}")
            if "position" not in x:
                off = [a[1] for a in T.subterms(t) if a[0] == "sym" and a[1].startswith("off")]
                ctx.check(not off, f"{name}: offsets do not affect {x}", W, f"{tag}: {T.show(t)}", f"{cls}-{to}-offset-{x}")

    def inverse(cls, name, n, x, f, b, Wf, Wb, tag):
        J = {R.val("j", x, i): f.get(R.val("j", x, i)) for i in range(n)}
        A = {R.val("a", x, i): b.get(R.val("a", x, i)) for i in range(n)}
        if None in J.values() or None in A.values():
            return
        PJ = {k: O.poly(t) for k, t in J.items()}
        PA = {k: O.poly(t) for k, t in A.items()}
        for k in PA:
            r = R.psub(PA[k], PJ)
            if r is None:
                ctx.undecided(f"{name} inverse {x}", T.show(A[k]))
            else:
                ctx.check(r == O.poly(k), f"{name}: {x} survives actuator -> joint -> actuator", Wb, f"{tag}: {k[1]} becomes {R.pshow(r)[:300]}", f"{cls}-inverse-{x}")
        for k in PJ:
            r = R.psub(PJ[k], PA)
            if r is None:
                ctx.undecided(f"{name} inverse {x}", T.show(J[k]))
            else:
                ctx.check(r == O.poly(k), f"{name}: {x} survives joint -> actuator -> joint", Wf, f"{tag}: {k[1]} becomes {R.pshow(r)[:300]}", f"{cls}-inverse-{x}")

    def motion(cls, x):
        """the documented motion map actuator -> joint without offsets"""
        v = lambda i: R.val("a", x, i)
        S = lambda n: ("sym", n)
        if cls == "simple":
            return [T.div(v(0), S("r"))]
        a, b = T.div(v(0), S("ar0")), T.div(v(1), S("ar1"))
        if cls == "diff":
            return [T.div(T.add(a, b), T.mul(T.c(2), S("jr0"))), T.div(T.sub(a, b), T.mul(T.c(2), S("jr1")))]
        j0 = T.div(v(0), T.mul(S("jr0"), S("ar0")))
        return [j0, T.div(T.sub(b, j0), S("jr1"))]

    def shape(cls, name, n, x, f, W, tag):
        if x != "velocity" and "position" not in x:
            return
        for i, m in enumerate(motion(cls, x)):
            t = f.get(R.val("j", x, i))
            if t is None:
                continue
            want = m if x == "velocity" else T.add(m, R.offset(cls, i))
            ctx.check(O.poly(t) == O.poly(want), f"{name}: joint {x} follows the documented ratio" + ("" if x == "velocity" else " and offset"), W,
                      f"{tag}: joint {i + 1}: {T.show(t)}, documented {T.show(want)}", f"{cls}-ratio-{x}")

    def power(cls, name, n, x, f, b, W):
        V = [f.get(R.val("j", "velocity", i)) for i in range(n)]
        E = [b.get(R.val("a", x, i)) for i in range(n)]
        if None in V or None in E:
            return
        pj = pa = {}
        for i in range(n):
            pj = O.padd(pj, O.pmul(O.poly(R.val("j", x, i)), O.poly(V[i])))
            pa = O.padd(pa, O.pmul(O.poly(E[i]), O.poly(R.val("a", "velocity", i))))
        ctx.check(pj == pa, f"{name}: {x} and velocity carry the same power on both sides", W,
                  f"joint side {R.pshow(pj)[:200]} against actuator side {R.pshow(pa)[:200]}", f"{cls}-power-{x}")

    ctx.pmap([(cls, one, (cls,)) for cls in R.KIND])
