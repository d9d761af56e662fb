"""Shared scenario builder for the transmission checks (P09, P10): the drivers of tus/tr_*.cpp are interpreted
abstractly with concrete handle sets whose values, reductions and offsets are symbolic."""
from . import terms as T
from . import order as O
from .util import *

ALL = ["position", "velocity", "effort", "torque", "force", "absolute_position"]
KIND = {"simple": ("SimpleTransmission", 1, ALL), "diff": ("DifferentialTransmission", 2, ALL),
        "four": ("FourBarLinkageTransmission", 2, ALL[:3])}
NS = "transmission_interface::"


def handle(kind, name, itf, ptr):
    return ("rec", NS + kind, (("prefix_name_", T.c(name)), ("interface_name_", T.c(itf)), ("value_ptr_", ptr)))


def ptr(n):
    return ("addr", ("sym", n))


def val(side, itf, i):
    return ("sym", f"{side}.{itf}.{i}")


def handles(side, specs):
    """specs: [(index of the joint/actuator, interface, present)]; names sort like the indices"""
    kind = "JointHandle" if side == "j" else "ActuatorHandle"
    name = "joint" if side == "j" else "actuator"
    return ("vec", tuple(handle(kind, f"{name}{i + 1}", itf, ("addr", val(side, itf, i)) if ok is True else T.NULL if ok is False else ("addr", ok))
                         for i, itf, ok in specs))


class Trans(Exact):
    at_throws = True
    inline_new = True


def params(cls):
    if cls == "simple":
        return {"r": ("sym", "r"), "off": ("sym", "off")}
    v = lambda n: ("vec", (("sym", n + "0"), ("sym", n + "1")))
    return {"ar": v("ar"), "jr": v("jr"), "off": v("off")}


def reductions(cls):
    return [("sym", "r")] if cls == "simple" else [("sym", x) for x in ("ar0", "ar1", "jr0", "jr1")]


def offset(cls, i):
    return ("sym", "off") if cls == "simple" else ("sym", f"off{i}")


def run(ctx, fn, args, nonzero=()):
    """outcomes with the given terms assumed to differ from zero"""
    I = Trans(ctx.db)
    s = State()
    for t in nonzero:
        s = I.assume(s, T.eq(t, T.c(0)), False)[0]
    outs = I.run(fn, args=args, state=s)
    ctx.saw_interp(I, outs)
    return I, outs


def written(s):
    """{value location: final value} of the handle values a path changed"""
    return {l: v for l, v in s.heap.items() if l[0] == "sym" and "." in l[1] and l[1][:2] in ("j.", "a.") and v != l}


def psub(p, env):
    """substitute polynomials for atoms; None where an atom occurs with a negative exponent"""
    out = {}
    for m, x in p.items():
        cur = {(): x}
        for a, e in m:
            if a in env:
                if e < 0:
                    return None
                for _ in range(e):
                    cur = O.pmul(cur, env[a])
            else:
                cur = O.pmul(cur, {((a, e),): O.q(1)})
        out = O.padd(out, cur)
    return out


def pshow(p):
    return " + ".join(f"{x}*" + "*".join(f"{T.show(a) if isinstance(a, tuple) and a and a[0] != 'den' else '(..)'}^{e}" for a, e in m) for m, x in sorted(p.items(), key=repr)) or "0"
