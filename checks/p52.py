"""P52 command limits are applied to the claimed commands of every limited joint."""
from engine import rm as R
from engine import terms as T
from engine.util import *

QUANT = ("position", "velocity", "effort", "acceleration")
DATA = "joint_limits::JointInterfacesCommandLimiterData"
EMPTY = ("vec", ())


def mp(items):
    m = EMPTY
    for k, v in items:
        m = ("mapset", m, T.c(k), v)
    return m


def data(j, cm, st):
    """what an earlier cycle left behind: a stale value for every existing interface"""
    def part(p, have):
        return (p, ("rec", "joint_limits::JointControlInterfacesData", (("joint_name", T.c(j)),) + tuple(
            (q, ("some", ("sym", f"stale {p} {q}")) if q in have else ("nullopt",)) for q in QUANT)))
    return ("rec", DATA, (("joint_name", T.c(j)), part("actual", st), part("command", cm), part("prev_command", cm), part("limited", cm)))


class Lim(R.RmInterp):
    sparse = False

    def emit(self, s, *e):
        s.tags["ev"] = s.tags.get("ev", ()) + (e,)

    def on_call(self, s, call):
        n = call.name
        if n == "enforce" and len(call.args) == 3:
            lim = call.recvv
            act, cmd = call.args[0], call.args[1]
            vals = tuple((q, self.fieldof(s, call.argl[0], act, q), self.fieldof(s, call.argl[1], cmd, q)) for q in QUANT)
            nm = T.show(lim)
            a, b = s.copy(), s
            self.emit(a, "limit", nm, vals, call.args[2], True)
            loc = call.argl[1]
            for q, _, v in vals:
                if v is not None and v[0] == "some" and loc is not None:
                    self.wr(a, ("fld", loc, q), ("some", ("sym", f"limited {q} by {nm}")))
            self.emit(b, "limit", nm, vals, call.args[2], False)
            return [(a, T.c(True)), (b, T.c(False))]
        if n == "get_optional" and call.recvv is not None:
            return [(s, ("some", ("sym", "value of " + T.show(call.recvv))))]
        if n == "set_value" and call.recvv is not None and call.args:
            self.emit(s, "set", T.show(call.recvv), call.args[-1])
            return [(s, T.c(True))]
        return super().on_call(s, call)

    def fieldof(self, s, loc, v, q):
        if loc is not None:
            return self.read(s, ("fld", loc, q))
        return T.field(v, q)


def none(v):
    return v is not None and v[0] in ("none", "nullopt") or (v is not None and v[0] == "enum" and "nullopt" in v[1]) or v == ("make", "std::nullopt")


def run(ctx):
    ctx.rule("The resource manager's enforcement of command limits is interpreted abstractly over joints with every combination of existing, claimed and limited quantities: what each limiter is given and what is written back to which interface "
             "is compared per quantity on every path.")
    ctx.assumption("what a limiter computes is decided by P07 and P08; an enforcement that cannot take the limiters' lock without waiting is skipped (P26)")
    f = ctx.db.one(R.RM + "enforce_command_limits")
    W = where(f)

    def one(label, joints, both=False):
        """joints: {name: (hw, {q: claimed} commands, [q] states)}"""
        hws = sorted({h for h, _, _ in joints.values()})
        comps = [R.Comp("actuator", h, cmd=tuple(f"{j}/{q}" for j, (hh, cm, st) in joints.items() if hh == h for q in cm), st=tuple(f"{j}/{q}" for j, (hh, cm, st) in joints.items() if hh == h for q in st)) for h in hws]
        I = Lim(ctx.db, comps)
        s0 = R.start(I, comps)
        R.put(I, s0, "joint_limiters_interface_", mp([(h, mp([(j, ("sym", "lim " + j)) for j, x in joints.items() if x[0] == h])) for h in hws]))
        R.put(I, s0, "limiters_data_", mp([(j, data(j, cm, st)) for j, (h, cm, st) in joints.items()]))
        R.put(I, s0, "state_interface_map_", mp([(k, ("sym", "S " + k)) for c in comps for k in c.st]))
        R.put(I, s0, "command_interface_map_", mp([(k, ("sym", "C " + k)) for c in comps for k in c.cmd]))
        R.put(I, s0, "claimed_command_interface_map_", mp([(f"{j}/{q}", T.c(b)) for j, (h, cm, st) in joints.items() for q, b in cm.items() if b is not None]))
        outs = I.run(f, args={0: ("sym", "period")}, state=s0)
        ctx.saw_interp(I, outs)
        for k, s, v in outs:
            if k != "ret":
                ctx.bad("the enforcement of limits does not raise", W, f"{label}: {v}", "escape")
                continue
            ev = s.tags.get("ev", ())
            owns = [b for a, b in s.facts.items() if a[0] == "owns"]
            lim = [e for e in ev if e[0] == "limit"]
            if not lim and owns and not owns[0]:
                ctx.ok("nothing is enforced without the lock", W)
                continue
            names = sorted(e[1] for e in lim)
            ctx.check(names == sorted("*lim " + j for j in joints) or names == sorted("lim " + j for j in joints), "the limiter of every limited joint is applied once per cycle", W, f"{label}: applied {names}", "each")
            hit = set()
            for e in lim:
                j = e[1].split("lim ")[1]
                h, cm, st = joints[j]
                what = f"{label}, joint {j}"
                ctx.check(e[3] == ("sym", "period"), "limits are enforced over the cycle's period", W, f"{what}: {T.show(e[3])}", "period")
                for q, a, c in e[2]:
                    given(ctx, W, f"{what} {q}", "actual", a, f"S {j}/{q}" if q in st else None)
                    given(ctx, W, f"{what} {q}", "command", c, f"C {j}/{q}" if cm.get(q) else None)
                if e[4]:
                    hit.add(j)
            sets = [(e[1].lstrip("*"), e[2]) for e in ev if e[0] == "set"]
            exp = {f"C {j}/{q}": (j, q) for j in hit for q, b in joints[j][1].items() if b}
            got = {}
            for n, x in sets:
                got.setdefault(n, []).append(x)
            for n in set(exp) - set(got):
                ctx.bad("a limited command replaces the claimed command", W, f"{label}: {n[2:]} limited but not written; written {sorted(got)}", "write-missing")
            for n, xs in got.items():
                j, q = n[2:].split("/")
                if n not in exp and joints.get(j, (0, {}))[1].get(q) and all(x == ("sym", f"value of *{n}") or x == ("some", ("sym", f"value of *{n}")) for x in xs):
                    continue        # the unchanged command is written back
                if n not in exp:
                    ctx.bad("only limited and claimed commands are written", W, f"{label}: {n[2:]} written", "write-extra")
                    continue
                j, q = exp[n]
                want = f"limited {q} by "
                for x in xs:
                    x = x[1] if x[0] == "some" else x
                    if x[0] == "sym":
                        ctx.check(str(x[1]).startswith(want) and str(x[1]).endswith("lim " + j), "each command gets the limited value of the same quantity", W, f"{label}: {n[2:]} := {T.show(x)}", "write-value")
                    else:
                        ctx.undecided(f"{label}: {n}", T.show(x)[:120])
            if lim and T.isc(v):
                ctx.check(bool(v[1]) == bool(hit), "the result tells whether a command was limited", W, f"{label}: limited {sorted(hit)}, result {v[1]}", "result")

    def given(ctx, W, what, kind, got, want):
        if got is not None and got[0] == "some" and got[1][0] == "sym":
            n = str(got[1][1]).replace("value of ", "").lstrip("*")
            ctx.check(n == want, f"a limiter sees the {kind} value of that joint and quantity, and none for others" + (" or unclaimed ones" if kind == "command" else ""), W, f"{what}: {n or got} given, expected {want or 'nothing'}", f"given-{kind}")
        elif none(got):
            ctx.check(want is None, f"a limiter sees the {kind} value of that joint and quantity", W, f"{what}: nothing given, expected {want}", f"given-{kind}")
        else:
            ctx.undecided(what, f"{kind} {T.show(got)[:120] if got else got}")

    B = {q: True for q in QUANT}
    one("all claimed", {"j0": ("hw0", B, QUANT)})
    for q in QUANT:
        one(f"{q} only", {"j0": ("hw0", {q: True}, (q,))})
        one(f"{q} claimed", {"j0": ("hw0", {p: p == q for p in QUANT}, QUANT)})
        one(f"{q} unclaimed", {"j0": ("hw0", {p: p != q for p in QUANT}, ())})
        one(f"{q} state only", {"j0": ("hw0", {p: True for p in QUANT if p != q}, (q,))})
        one(f"{q} never claimed", {"j0": ("hw0", {p: (True if p != q else None) for p in QUANT}, QUANT)})
    one("nothing claimed", {"j0": ("hw0", {q: False for q in QUANT}, QUANT)})
    one("two joints", {"j0": ("hw0", {"position": True}, ("position",)), "j1": ("hw0", {"velocity": True, "position": False}, ("position", "velocity"))})
    one("two components", {"j0": ("hw0", {"position": True, "effort": False}, ("position",)), "j1": ("hw1", {"position": True}, ("position",))})
    one("three joints", {"j0": ("hw0", {"velocity": True}, ()), "j1": ("hw1", {"velocity": True}, ()), "j2": ("hw1", {"velocity": True}, ())})
