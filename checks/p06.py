"""P06 URDF joint limits: value flow into the limit structures for every joint type."""
from engine import terms as T
from engine.util import *
from checks.p04 import facts_text

TYPES = {0: "unknown", 1: "revolute", 2: "continuous", 3: "prismatic", 4: "floating", 5: "planar", 6: "fixed"}
FLAGS = ["has_position_limits", "has_velocity_limits", "has_acceleration_limits", "has_deceleration_limits", "has_jerk_limits", "has_effort_limits"]
VALUES = ["min_position", "max_position", "max_velocity", "max_acceleration", "max_deceleration", "max_jerk", "max_effort"]


def run(ctx):
    db = ctx.db
    ctx.rule("The import functions are interpreted abstractly once per joint type with a symbolic joint; on every path each limit field must hold the "
             "value of the source element it stands for (magnitudes for velocity and effort), every flag must be the one of that joint type, fields the "
             "description does not carry must be untouched, and failing paths must not write. Constructors and the reset are evaluated likewise.")

    def final(I, s, out, f):
        """value of out.f, None if untouched"""
        l = ("fld", out, f)
        v = I.read(s, l)
        return None if v == l or v == T.field(out, f) else v

    def written(I, s, out, names):
        return [f for f in names if final(I, s, out, f) is not None]

    def src_fields(t, root):
        return {x[2] for x in T.subterms(t) if x[0] == "fld" and T.contains(x[1], root) and x[2] not in ("limits", "safety")}

    def hard():
        fn = db.one("joint_limits::getJointLimits")
        W = where(fn)
        j, out = (("sym", p["n"]) for p in fn["params"][:2])
        allf = FLAGS + VALUES + ["angle_wraparound"]
        for ty, name in TYPES.items():
            st = State()
            loc = ("fld", ("deref", j), "type")
            st.heap[loc] = T.c(ty)
            st.subs.add(("deref", j))
            I = Exact(db)
            outs = I.run(fn, state=st)
            ctx.saw_interp(I, outs)
            lim = ("fld", ("deref", j), "limits")
            for k, s, v in outs:
                tag = f"{name} joint"
                if k == "throw":
                    ctx.bad("importing limits never raises", W, str(v), "hard-throw")
                    continue
                ok = v[1] if T.isc(v) else I.truth(s, v)
                have = I.truth(s, j), I.truth(s, lim)
                if have[0] is False or have[1] is False:
                    ctx.check(ok is not True, "a joint without limits is a failure", W, f"returns {T.show(v)} under {facts_text(s)}", "hard-missing")
                    w = written(I, s, out, allf)
                    ctx.check(not w, "a failing import changes nothing", W, f"writes {w}", "hard-dirty")
                    continue
                if have[0] is None or have[1] is None:
                    if all(h is not False for h in have) and ok is True:
                        ctx.bad("success requires limits in the description", W, f"returns true without testing the joint and its limits ({facts_text(s)})", "hard-untested")
                    elif written(I, s, out, VALUES):
                        ctx.bad("limits are only read after they were found", W, facts_text(s), "hard-untested")
                    continue
                if ok is None:
                    ctx.undecided("return " + tag, T.show(v))
                elif not ok:
                    ctx.bad("a joint with limits is imported", W, f"{tag}: returns false under {facts_text(s)}", "hard-refused")
                    continue
                pos = ty in (1, 3)
                want = {"has_position_limits": pos, "has_velocity_limits": True, "has_effort_limits": True}
                for f in FLAGS:
                    x = final(I, s, out, f)
                    b = None if x is None else (x[1] if T.isc(x) else I.truth(s, x))
                    if f in want:
                        if x is not None and b is None and not src_fields(x, j):
                            ctx.undecided(f, T.show(x))
                            continue
                        if x is not None and b is None:
                            b = T.show(x)
                        ctx.check(b is want[f], f"{f} follows the description", W, f"{tag}: {f} is {'unchanged' if x is None else b}", "hard-" + f)
                    else:
                        ctx.check(b is not True and not (b is None and x is not None and src_fields(x, j)), f"{f} is never enabled without a source", W, f"{tag}: {f} is enabled", "hard-" + f)
                x = final(I, s, out, "angle_wraparound")
                b = None if x is None else (x[1] if T.isc(x) else I.truth(s, x))
                if ty == 2:
                    ctx.check(b is True, "a continuous joint wraps around", W, f"angle_wraparound is {b}", "hard-wrap")
                elif pos:
                    ctx.check(b is not True, "a joint with position limits does not wrap around", W, f"{tag}: angle_wraparound is {b}", "hard-wrap")
                src = {"min_position": "lower", "max_position": "upper", "max_velocity": "velocity", "max_effort": "effort"}
                for f in VALUES:
                    x = final(I, s, out, f)
                    if f not in src or (f.endswith("_position") and not pos):
                        if x is not None and f not in src:
                            fs = src_fields(x, j)
                            ctx.check(not fs, f"{f} is not provided by a description", W, f"{tag}: set from {sorted(fs)}", "hard-" + f)
                        continue
                    if x is None:
                        ctx.bad(f"{f} is imported", W, f"{tag}: {f} keeps its old value", "hard-" + f)
                        continue
                    judge(I, s, f, x, ("fld", ("deref", lim), src[f]), f in ("max_velocity", "max_effort"), W, tag, "hard-", j)

    def judge(I, s, f, x, src, mag, W, tag, kp, root):
        fs = src_fields(x, root)
        if fs and fs != {src[2]}:
            ctx.bad(f"{f} comes from '{src[2]}'", W, f"{tag}: set from {sorted(fs)}", kp + f)
            return
        if not fs:
            if T.isc(x):
                ctx.bad(f"{f} comes from '{src[2]}'", W, f"{tag}: constant {T.show(x)}", kp + f)
            else:
                ctx.undecided(f, T.show(x))
            return
        lo, hi = num_bounds(s.facts, src)
        good = x == src if not mag else x in (("abs", src), ("call", "abs", src), ("call", "std::abs", src), ("call", "fabs", src), ("call", "std::fabs", src))
        if mag and x == src and lo is not None and lo >= 0:
            good = True
        if mag and x == T.umin(src) and hi is not None and hi <= 0:
            good = True
        if mag and x[0] in ("max", "call") and src in x and T.umin(src) in x:
            good = True
        if good:
            ctx.ok(f"{f} is the source value", W)
        elif x == src or x == T.umin(src) or x[0] == "abs" or x[0] == "neg" or x[0] in ("+", "-", "*", "/", "narrow", "trunc"):
            ctx.bad(f"{f} is the {'magnitude of the ' if mag else ''}source value", W, f"{tag}: {T.show(x)}", kp + f)
        else:
            ctx.undecided(f, T.show(x))

    def soft():
        fn = db.one("joint_limits::getSoftJointLimits")
        W = where(fn)
        j, out = (("sym", p["n"]) for p in fn["params"][:2])
        I = Exact(db)
        outs = I.run(fn)
        ctx.saw_interp(I, outs)
        saf = ("fld", ("deref", j), "safety")
        src = {"min_position": "soft_lower_limit", "max_position": "soft_upper_limit", "k_position": "k_position", "k_velocity": "k_velocity"}
        for k, s, v in outs:
            if k == "throw":
                ctx.bad("importing soft limits never raises", W, str(v), "soft-throw")
                continue
            ok = v[1] if T.isc(v) else I.truth(s, v)
            have = I.truth(s, j), I.truth(s, saf)
            w = written(I, s, out, list(src))
            if False in have:
                ctx.check(ok is not True, "a joint without safety data is a failure", W, f"returns {T.show(v)}", "soft-missing")
                ctx.check(not w, "a failing import changes nothing", W, f"writes {w}", "soft-dirty")
                continue
            if None in have:
                if ok is True or w:
                    ctx.bad("soft limits are only read after they were found", W, facts_text(s), "soft-untested")
                continue
            ctx.check(ok is not False, "a joint with safety data is imported", W, f"returns false under {facts_text(s)}", "soft-refused")
            if ok is False:
                continue
            for f, g in src.items():
                x = final(I, s, out, f)
                if x is None:
                    ctx.bad(f"soft {f} is imported", W, f"{f} keeps its old value", "soft-" + f)
                else:
                    judge(I, s, f, x, ("fld", ("deref", saf), g), False, W, "soft limits", "soft-", j)

    def resets():
        fn = db.one("JointLimits::disable_all_limits")
        W = where(fn)
        I = Exact(db)
        for k, s, v in I.run(fn):
            for f in FLAGS:
                x = I.read(s, ("fld", ("this",), f))
                ctx.check(x == T.c(False) or I.truth(s, x) is False, f"disabling all limits clears {f}", W, f"{f} is {T.show(x)}", "disable-" + f)
            for f in VALUES:
                x = I.read(s, ("fld", ("this",), f))
                if T.is_num(x):
                    ctx.check(x[1] < 0 if f.startswith("min") else x[1] > 0, f"a disabled {f} does not restrict", W, T.show(x), "disable-" + f)
        for q in ("JointLimits::JointLimits",):
            for fn in db.find(q):
                if fn.get("kind") != "ctor" or fn["params"]:
                    continue
                I = Exact(db)
                for k, s, v in I.run(fn):
                    for f in FLAGS + ["angle_wraparound"]:
                        x = I.read(s, ("fld", ("this",), f))
                        ctx.check(x == T.c(False) or x == T.c(0), f"a fresh limit structure has {f} off", where(fn), T.show(x), "ctor-" + f)

    ctx.section("hard limits", hard)
    ctx.section("soft limits", soft)
    ctx.section("resets", resets)
