"""P38 Semantic components map interfaces to the right quantities."""
import itertools
from engine import terms as T
from engine.interp import State
from engine.db import AnchorMissing
from engine.util import *

NS = "semantic_components::"
DIR = "controller_interface/include/semantic_components/"
XYZ = ("x", "y", "z")
ax = lambda base, axes: tuple(f"{base}.{a}" for a in axes)

IMU = ax("orientation", "xyzw") + ax("angular_velocity", XYZ) + ax("linear_acceleration", XYZ)
FTS = ax("force", XYZ) + ax("torque", XYZ)
POSE = ax("position", XYZ) + ax("orientation", "xyzw")
MAG = ax("magnetic_field", XYZ)
GPS = ("status", "service", "latitude", "longitude", "altitude")
COV = ("latitude_covariance", "longitude_covariance", "altitude_covariance")
gpsmsg = {"status.status": "status", "status.service": "service", "latitude": "latitude", "longitude": "longitude", "altitude": "altitude"}
gpsacc = {"get_status": "status", "get_service": "service", "get_latitude": "latitude", "get_longitude": "longitude", "get_altitude": "altitude"}
same = lambda xs: {x: x for x in xs}

# class, file, quantities, message field -> quantity, accessor -> quantity or quantities
SENSORS = (
    ("IMUSensor", "imu_sensor.hpp", IMU, same(IMU),
     {"get_orientation": IMU[:4], "get_angular_velocity": IMU[4:7], "get_linear_acceleration": IMU[7:]}),
    ("ForceTorqueSensor", "force_torque_sensor.hpp", FTS, same(FTS), {"get_forces": FTS[:3], "get_torques": FTS[3:]}),
    ("PoseSensor", "pose_sensor.hpp", POSE, same(POSE), {"get_position": POSE[:3], "get_orientation": POSE[3:]}),
    ("MagneticFieldSensor", "magnetic_field_sensor.hpp", MAG, same(MAG), {}),
    ("RangeSensor", "range_sensor.hpp", ("range",), {"range": "range"}, {"get_range": "range"}),
    ("GPSSensor<semantic_components::GPSSensorOption::WithoutCovariance>", "gps_sensor.hpp", GPS, gpsmsg, gpsacc),
    ("GPSSensor<semantic_components::GPSSensorOption::WithCovariance>", "gps_sensor.hpp", GPS + COV,
     dict(gpsmsg, **{"position_covariance[0]": COV[0], "position_covariance[4]": COV[1], "position_covariance[8]": COV[2]}),
     dict(gpsacc, get_covariance={0: COV[0], 4: COV[1], 8: COV[2]})),
)


class Sem(Exact):
    """loaned interfaces are symbols; a read gives the interface's own value symbol or nothing"""
    objects = True
    MAXDEPTH = 14
    absent = ()

    def want_inline(self, fn, call=None):
        return True

    @staticmethod
    def target(v):
        for x in T.subterms(v):
            if x[0] == "sym" and str(x[1]).startswith("itf:"):
                return x[1][4:]
        return None

    def on_call(self, s, call):
        nm = call.name
        if nm in ("get_optional", "get_value", "set_value") and ("Loaned" in call.cls or "reference_wrapper" in repr(call.cls)):
            who = self.target(call.recvv) if call.recvv else None
            if who is None and call.recv:
                w = self.read(s, call.recv)
                who = self.target(w)
            if who is None:
                return None
            if nm == "set_value":
                s.tags["ev"] = s.tags.get("ev", ()) + (("set", who, self.plain(s, call.args[0])),)
                return [(s, T.c(who not in self.absent))]
            if who in self.absent:
                return [(s, ("nullopt",))]
            return [(s, ("some", ("sym", "val:" + who)))]
        if nm == "value" and call.recvv == ("nullopt",):
            s2 = s
            s2.exc = ("std::bad_optional_access", call.line, "value of an absent optional")
            self.sink.append(s2)
            return []
        return Exact.on_call(self, s, call)

    def plain(self, s, v):
        d = 0
        while v is not None and v[0] in ("loc", "tmp") and d < 4:
            v, d = self.read(s, v[1] if v[0] == "loc" else v), d + 1
        return v


def vals(v):
    return {x[1][4:] for x in T.subterms(v) if x[0] == "sym" and str(x[1]).startswith("val:")}


def this(f):
    return ("fld", ("this",), f)


def construct(ctx, cls, args, nparams):
    I = Sem(ctx.db)
    short = cls.split("<")[0]
    ctors = [f for f in ctx.db.byq.get(NS + cls + "::" + short, []) if len(f["params"]) == nparams and not f.get("implicit")]
    if not ctors:
        raise AnchorMissing(f"constructor of {cls}")
    outs = I.run(ctors[0], args=args)
    ctx.saw_interp(I, outs)
    res = []
    for kind, s, v in outs:
        names = I.read(s, this("interface_names_"))
        if kind != "ret" or names[0] != "vec" or not all(T.isc(x) for x in names[1]):
            ctx.undecided(cls, f"constructor: {kind}, names {T.show(names)}"[:220])
            continue
        res.append((s, [x[1] for x in names[1]]))
    return res


def method(ctx, cls, name):
    fs = [f for f in ctx.db.byq.get(NS + cls + "::" + name, []) if f.get("body")]
    return fs[0] if fs else None


def assign(s, names, fld="state_interfaces_"):
    s2 = s.copy()
    I = Sem
    return s2


def at(I, s, L, path):
    """value at message field path below location L"""
    for p in path.split("."):
        i = None
        if p.endswith("]"):
            p, i = p[:-1].split("[")
        L = ("fld", L, p)
        if i is not None:
            L = ("idx", L, T.c(int(i)))
    return I.read(s, L)


def sensor(ctx, cls, file, quant, msg, acc, args, names_of, nparams):
    """names_of: quantity -> interface name (None: that quantity does not exist)"""
    where = DIR + file
    label = strip(cls)
    for s0, names in construct(ctx, cls, args, nparams):
        want = [n for n in (names_of[q] for q in quant) if n is not None]
        ctx.check(sorted(names) == sorted(want), "a semantic component requests exactly the interfaces of its quantities", where,
                  f"{label}: requests {names} instead of {want}")
        if sorted(names) != sorted(want):
            continue
        for absent in [()] + [(n,) for n in want]:
            jobs = [("get_values_as_message", None)] + sorted(acc.items())
            for fn_name, q in jobs:
                fn = method(ctx, cls, fn_name)
                if fn is None:
                    ctx.undecided(label, f"{fn_name} not found")
                    continue
                I = Sem(ctx.db)
                I.absent = absent
                s = s0.copy()
                I.wr(s, this("state_interfaces_"), ("vec", tuple(("sym", "itf:" + n) for n in names)))
                M = ("sym", "message")
                outs = I.run(fn, args={0: M} if q is None else {}, state=s)
                ctx.saw_interp(I, outs)
                for kind, s2, v in outs:
                    z = f"{label}::{fn_name}" + (f" while {absent[0]} cannot be read" if absent else "")
                    if kind != "ret":
                        ctx.check(False, "reading a semantic component never fails", where, f"{z}: throws {s2.exc[0]}")
                        continue
                    if q is None:
                        got = {f: at(I, s2, M, f) for f in msg}
                        exp = msg
                    elif isinstance(q, str):
                        got, exp = {"value": I.plain(s2, v)}, {"value": q}
                    else:
                        v2 = v
                        arr = I.plain(s2, v)
                        idx = q if isinstance(q, dict) else dict(enumerate(q))
                        got, exp = {}, {}
                        for i, qq in idx.items():
                            e = I.read(s2, ("idx", v[1], T.c(i))) if v[0] == "loc" else T.index(arr, T.c(i))
                            got[f"[{i}]"], exp[f"[{i}]"] = e, qq
                    for f, g in got.items():
                        n = names_of[exp[f]]
                        vs = vals(g)
                        if n is None or n in absent:
                            ctx.check(not vs, "a quantity that is not available is not taken from another interface", where,
                                      f"{z}: {f} ({exp[f]}) is the value of {sorted(vs)}")
                        elif vs:
                            ctx.check(vs == {n} and bare(g), "every quantity is read from its own interface", where,
                                      f"{z}: {f} is {T.show(g)[:80]} instead of the value of {n}")
                        elif T.isc(g):
                            ctx.check(False, "every quantity is read from its own interface", where, f"{z}: {f} is {T.show(g)} instead of the value of {n}")
                        elif g[0] in ("fld", "idx") and M in T.subterms(g) or g[0] == "def" or T.show(g) == "quiet_NaN()":
                            ctx.check(False, "every quantity is read from its own interface", where, f"{z}: {f} is left unset instead of the value of {n}")
                        else:
                            ctx.undecided(label, f"{z}: {f} = {T.show(g)}"[:220])


def bare(g):
    """the value itself, up to numeric conversions"""
    while isinstance(g, tuple) and g and g[0] in ("cast", "conv", "tmp", "narrow", "trunc"):
        g = g[-1]
    return g[0] == "sym"


def strip(cls):
    return cls.replace("semantic_components::", "")


def simple(ctx, name):
    cls, file, quant, msg, acc = next(x for x in SENSORS if x[0] == name)
    args = {0: T.c("s")}
    sensor(ctx, cls, file, quant, msg, acc, args, {q: "s/" + q for q in quant}, 1)


def partial_fts(ctx):
    cls, file, quant, msg, acc = next(x for x in SENSORS if x[0] == "ForceTorqueSensor")
    for bits in itertools.product((True, False), repeat=6):
        if not any(bits):
            continue
        given = [f"if_{q}" if b else "" for q, b in zip(quant, bits)]
        args = {i: T.c(g) for i, g in enumerate(given)}
        sensor(ctx, cls, file, quant, msg, acc, args, {q: (g or None) for q, g in zip(quant, given)}, 6)


def led(ctx):
    cls, where = "LedRgbDevice", DIR + "led_rgb_device.hpp"
    fn = method(ctx, cls, "set_values_from_message")
    dom = (-0.5, 0.0, 0.25, 1.0, 1.5)
    for s0, names in construct(ctx, cls, {0: T.c("led"), 1: T.c("r"), 2: T.c("g"), 3: T.c("b")}, 4):
        ctx.check(sorted(names) == ["led/b", "led/g", "led/r"], "a semantic component requests exactly the interfaces of its quantities", where, f"{cls}: {names}")
        for rgb in itertools.product(dom, repeat=3):
            inside = all(0 <= x <= 1 for x in rgb)
            for refuse in [()] + ([(n,) for n in names] if rgb == (0.0, 0.25, 1.0) else []):
                I = Sem(ctx.db)
                I.absent = refuse
                s = s0.copy()
                I.wr(s, this("command_interfaces_"), ("vec", tuple(("sym", "itf:" + n) for n in names)))
                M = ("sym", "message")
                for f, x in zip("rgb", rgb):
                    I.wr(s, ("fld", M, f), T.c(x))
                outs = I.run(fn, args={0: M}, state=s)
                ctx.saw_interp(I, outs)
                for kind, s2, v in outs:
                    ev = s2.tags.get("ev", ())
                    z = f"colour {rgb}, refused by {list(refuse)}: sets {[(e[1], T.show(e[2])) for e in ev]}, returns {T.show(v) if v else v}"
                    if kind != "ret" or not T.isc(v) or not all(T.is_num(e[2]) for e in ev):
                        ctx.undecided(cls, z[:220])
                        continue
                    ctx.check(bool(v[1]) == (inside and not refuse), "setting a colour succeeds exactly if it is valid and every component was accepted", where, z)
                    if inside:
                        got = {e[1]: e[2][1] for e in ev}
                        if not refuse:
                            ctx.check(got == dict(zip(("led/r", "led/g", "led/b"), rgb)), "every colour component is written to its own interface", where, z)
                        else:
                            ctx.check(all(got[k] == dict(zip(("led/r", "led/g", "led/b"), rgb))[k] for k in got), "every colour component is written to its own interface", where, z)
                    else:
                        ctx.check(not ev, "an invalid colour changes nothing", where, z)


def generic(ctx):
    """values by position, for both generic bases"""
    names = ["a", "b", "c"]
    base = [f for f in ctx.db.byn.get("get_values", []) if f["q"].startswith(NS + "SemanticComponentInterface<") and f.get("body")]
    done = 0
    for fn in base[:1]:
        where = DIR + "semantic_component_interface.hpp"
        for absent in ((), ("a",), ("c",)):
            I = Sem(ctx.db)
            I.absent = absent
            s = State()
            I.wr(s, this("state_interfaces_"), ("vec", tuple(("sym", "itf:" + n) for n in names)))
            L = ("sym", "values")
            I.wr(s, L, ("vec", ()))
            outs = I.run(fn, args={0: ("loc", L)}, state=s)
            ctx.saw_interp(I, outs)
            for kind, s2, v in outs:
                z = f"reading {names}, unreadable {list(absent)}"
                if kind != "ret":
                    ctx.check(False, "reading a semantic component never fails", where, f"get_values: {z}: throws {s2.exc[0]}")
                    continue
                got = I.read(s2, L)
                if not T.isc(v) or got[0] != "vec":
                    ctx.undecided("get_values", f"{z}: {T.show(v)}, {T.show(got)}"[:220])
                    continue
                done += 1
                if v[1]:
                    ctx.check(not absent and [sorted(vals(x)) for x in got[1]] == [[n] for n in names], "all values are delivered in order, or the read fails", where,
                              f"get_values: {z}: gives {[T.show(x) for x in got[1]]}")
                else:
                    ctx.ok("all values are delivered in order, or the read fails", where)
    cmd = [f for f in ctx.db.byn.get("set_values", []) if f["q"].startswith(NS + "SemanticComponentCommandInterface<") and f.get("body")]
    for fn in cmd[:1]:
        where = DIR + "semantic_component_command_interface.hpp"
        for k in (0, 2, 3, 4):
            for refuse in ((), ("a",), ("c",)):
                I = Sem(ctx.db)
                I.absent = refuse
                s = State()
                I.wr(s, this("command_interfaces_"), ("vec", tuple(("sym", "itf:" + n) for n in names)))
                L = ("sym", "values")
                I.wr(s, L, ("vec", tuple(("sym", f"val:{i}") for i in range(k))))
                outs = I.run(fn, args={0: ("loc", L)}, state=s)
                ctx.saw_interp(I, outs)
                for kind, s2, v in outs:
                    ev = s2.tags.get("ev", ())
                    z = f"set_values with {k} values for {len(names)} interfaces, refused by {list(refuse)}: sets {[(e[1], T.show(e[2])) for e in ev]}, returns {T.show(v) if v else v}"
                    if kind != "ret" or not T.isc(v):
                        ctx.undecided("set_values", z[:220])
                        continue
                    done += 1
                    ctx.check(bool(v[1]) == (k == 3 and not refuse), "setting values succeeds exactly if there is one for each interface and all were accepted", where, z)
                    if k != 3:
                        ctx.check(not ev, "a wrong number of values changes nothing", where, z)
                    elif not refuse:
                        ctx.check([(e[1], sorted(vals(e[2]))) for e in ev] == [(n, [str(i)]) for i, n in enumerate(names)], "every value is written to the interface of its position", where, z)
    if not done:
        ctx.undecided("generic", "no path understood")


def release(ctx):
    """assigning fills the interfaces by name, releasing forgets them all"""
    for kind, fld, n in (("SemanticComponentInterface<", "state_interfaces_", "state"), ("SemanticComponentCommandInterface<", "command_interfaces_", "command")):
        fs = [f for f in ctx.db.byn.get("release_interfaces", []) if f["q"].startswith(NS + kind) and f.get("body")]
        where = DIR + ("semantic_component_interface.hpp" if n == "state" else "semantic_component_command_interface.hpp")
        for fn in fs[:1]:
            I = Sem(ctx.db)
            s = State()
            I.wr(s, this(fld), ("vec", (("sym", "itf:a"),)))
            for k, s2, v in I.run(fn, state=s):
                g = I.read(s2, this(fld))
                if g[0] == "vec":
                    ctx.check(g == ("vec", ()), "releasing a component forgets every interface", where, f"{kind.rstrip('<')}: keeps {T.show(g)}")
                else:
                    ctx.undecided("release", T.show(g)[:200])
        fs = [f for f in ctx.db.byn.get(f"assign_loaned_{n}_interfaces", []) if f["q"].startswith(NS + kind) and f.get("body")]
        for fn in fs[:1]:
            I = Sem(ctx.db)
            seen = []

            def hook(s, call, I=I, seen=seen):
                if call.name == "get_ordered_interfaces":
                    seen.append((tuple(I.plain(s, a) for a in call.args), call.argl))
                    return [(s, ("sym", "ordered"))]
                return Sem.on_call(I, s, call)
            I.on_call = hook
            s = State()
            I.wr(s, this("interface_names_"), ("vec", (T.c("n/a"),)))
            for k, s2, v in I.run(fn, args={0: ("sym", "loaned")}, state=s):
                if not seen:
                    ctx.undecided("assign", "interfaces are not ordered by the library's helper")
                    continue
                a, al = seen[-1]
                ctx.check(a[1] == ("vec", (T.c("n/a"),)) and a[2] == T.c(""), "interfaces are assigned in the order of their full names", where, f"ordered by {T.show(a[1])}, {T.show(a[2])}")
                ctx.check(v == ("sym", "ordered"), "a missing interface is reported", where, f"returns {T.show(v) if v else v}")


def run(ctx):
    ctx.where = DIR
    ctx.rule("each semantic component is interpreted from its constructor: the interface names it requests, then every accessor and message conversion on interfaces whose values are distinct symbols, all readable or one of them not; "
             "each field must be the symbol of its own quantity; colour and value setters likewise over the order partition of their inputs")
    ctx.assumption("interfaces are assigned in the order of the requested names (get_ordered_interfaces, P05)")
    for x in SENSORS:
        ctx.section(strip(x[0]), simple, ctx, x[0])
    for f in (partial_fts, led, generic, release):
        ctx.section(f.__name__, f, ctx)
