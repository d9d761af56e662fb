"""P21 hardware plugin exceptions are contained."""
from engine import terms as T
from engine import rm as R
from engine.interp import State
from engine.util import *
from engine.hw import UNCONF, INACTIVE, ACTIVE, FINAL, NAMES, num

PLUGIN = {"initialize", "export_state_interfaces", "export_command_interfaces", "createUnmanagedInstance", "createUniqueInstance", "createSharedInstance", "createInstance"}


class Load(R.RmInterp):
    """plugin code reached while components are loaded: every call may raise"""
    def want_inline(self, fn, call):
        return super().want_inline(fn, call) and fn["q"].rsplit("::", 1)[1] not in ("add_state_interfaces", "add_command_interfaces", "validate_storage")

    def on_call(self, s, call):
        r = super().on_call(s, call)
        if r is not None:
            return r
        if call.name in PLUGIN and (call.fq.startswith("pluginlib::") or "::HardwareComponent::" in call.fq or call.fq.rsplit("::", 1)[0] in (
                "hardware_interface::Actuator", "hardware_interface::Sensor", "hardware_interface::System")):
            for t in R.THROWS:
                s2 = s.copy()
                self.ev_(s2, "res", call.name, "", "throw " + t)
                s2.exc = (t, call.line, call.name)
                self.sink.append(s2)
            self.ev_(s, "res", call.name, "", "done")
            if call.name == "initialize":
                out = []
                for st in (UNCONF, FINAL, 0):
                    s2 = s.copy()
                    out.append((s2, ("make", "rclcpp_lifecycle::State", T.c(st), T.c(""))))
                return out
            return None
        return None


def run(ctx):
    db = ctx.db
    ctx.rule("Every entry point of the resource manager that runs plugin code (loading, initialization, import of interfaces, state requests, mode switches, cyclic reads "
             "and writes, shutdown) is interpreted abstractly while every plugin call may raise a standard or a foreign exception: no path leaves the entry point by that "
             "exception unless the path established that exceptions are not to be handled, and paths on which a plugin raised report a failure.")
    ctx.assumption("logging does not raise")

    def contained(f, outs, what):
        W = where(f)
        n = 0
        for k, s, v in outs:
            ev = R.events(s)
            thrown = [e for e in ev if e[0] == "res" and str(e[3]).startswith("throw")]
            n += bool(thrown)
            if k != "throw" or not thrown:
                continue
            last = thrown[-1]
            if v and v[0] not in R.THROWS:
                continue
            wanted = any(not b and "exception" in repr(a) for a, b in s.facts.items())
            ctx.check(wanted, "an exception of a hardware plugin is contained unless propagation was requested", W,
                      f"{what}: {last[3][6:]} of {last[1]} of '{last[2]}' leaves the function", f"{f["q"].rsplit("::", 1)[1]}-{last[1]}")
        return n

    def entry(name, comps, args, setup, failed, what):
        I, outs = R.run(ctx, name, comps, args, setup)
        f = ctx.db.find(R.RM + name)[0]
        n = contained(f, outs, what)
        if not n:
            ctx.undecided(what, "no raising plugin call found")
        for k, s, v in outs:
            if k == "ret":
                thrown = [e for e in R.events(s) if e[0] == "res" and str(e[3]).startswith("throw")]
                for e in thrown:
                    r = failed(I, s, v, e)
                    if r is None:
                        ctx.undecided(what, f"result {T.show(v)[:100]}")
                    else:
                        ctx.check(r, "a raising plugin is reported as a failure", where(f), f"{what}: {e[1]} of '{e[2]}' raises, the result is {T.show(v)[:80]}", f"{name}-{e[1]}-reported")

    def requests(kind, cur):
        for tgt in (UNCONF, INACTIVE, ACTIVE, FINAL):
            if cur == FINAL or cur == tgt:
                continue
            comps = [R.Comp(kind, "hw0", state=cur, cmd=("c0",), st=("s0",))]
            entry("set_component_state", comps, {0: T.c("hw0"), 1: ("loc", ("sym", "tgt"))}, lambda I, s: I.wr(s, ("sym", "tgt"), I.state_value(tgt)),
                  lambda I, s, v, e: num(v) == I.rt["ERROR"] if num(v) is not None else None, f"{kind} in state {NAMES[cur]} asked for {NAMES[tgt]}")

    def shut():
        comps = [R.Comp("system", "hw0", state=ACTIVE, cmd=("c0",), st=("s0",))]
        entry("shutdown_components", comps, {}, None, lambda I, s, v, e: (v == T.FALSE) if v[0] == "c" else None, "shutdown of all components")

    def cyclic(op, kinds):
        for rate in (0, 50):
            comps = [R.Comp(k, f"hw{i}", cmd=(f"c{i}",), st=(f"s{i}",), rate=rate, throws=(i == 0)) for i, k in enumerate(kinds)]

            def failed(I, s, v, e):
                r, l = T.field(v, "result"), T.field(v, "failed_hardware_names")
                if num(r) is None or l[0] != "vec":
                    return None
                return num(r) == I.rt["ERROR"] and T.c(e[2]) in l[1] if e[1] in (op, "error") else num(r) != I.rt["OK"]
            entry(op, comps, {}, None, failed, f"cyclic {op}")

    def mode(op, kinds):
        comps = [R.Comp(k, f"hw{i}", cmd=(f"c{i}",), st=(f"s{i}",)) for i, k in enumerate(kinds)]

        def setup(I, s):
            I.wr(s, ("sym", "start"), R.strs("c0", "c1"))
            I.wr(s, ("sym", "stop"), R.strs("c0"))
            m = ("vec", ())
            for x in ("c0", "c1"):
                m = ("mapset", m, T.c(x), ("sym", "if " + x))
            R.put(I, s, "command_interface_map_", m)
        entry(op, comps, {0: ("loc", ("sym", "start")), 1: ("loc", ("sym", "stop"))}, setup,
              lambda I, s, v, e: (v == T.FALSE) if v[0] == "c" else None, op)

    def load(name):
        fs = [f for f in db.fns.values() if f["q"].endswith("::" + name) and f.get("cls", "").endswith("ResourceStorage")]
        if not fs:
            return
        seen = 0
        for f in fs:
            I = Load(db, [])
            outs = I.run(f, state=State())
            ctx.saw_interp(I, outs)
            what = f"{name}"
            seen += contained(f, outs, what)
            for k, s, v in outs:
                th = [e for e in R.events(s) if e[0] == "res" and str(e[3]).startswith("throw") and not e[1].startswith("export")]
                if k == "ret" and th and v is not None and name.startswith("load"):
                    if v[0] == "c":
                        ctx.check(v == T.FALSE, "a raising plugin is reported as a failure", where(f), f"{name}: {th[0][1]} raises, the result is {T.show(v)}", f"{name}-{th[0][1]}-reported")
                    else:
                        ctx.undecided(what, f"result {T.show(v)[:100]}")
        if not seen:
            ctx.undecided(f"{name}", "no raising plugin call found")

    def whole():
        """the public entry points the loading helpers are reached from"""
        for name in ("import_component",):
            for f in db.find(R.RM + name):
                I = Load(db, [])
                s0 = State()
                for k in ("actuators_", "sensors_", "systems_"):
                    R.put(I, s0, k, ("vec", ()))
                outs = I.run(f, state=s0)
                ctx.saw_interp(I, outs)
                contained(f, outs, name)

    jobs = []
    for kind in ("actuator", "sensor", "system"):
        for cur in (UNCONF, INACTIVE, ACTIVE):
            jobs.append((f"requests {kind} {NAMES[cur]}", requests, (kind, cur)))
    for op, kk in (("read", (("actuator", "system"), ("sensor", "sensor"), ("system", "actuator"))), ("write", (("actuator", "system"), ("system", "actuator")))):
        for kinds in kk:
            jobs.append((f"{op} {kinds}", cyclic, (op, kinds)))
    for op in ("prepare_command_mode_switch", "perform_command_mode_switch"):
        for kinds in (("actuator", "actuator"), ("system", "system"), ("actuator", "system")):
            jobs.append((f"{op} {kinds}", mode, (op, kinds)))
    jobs.append(("shutdown", shut, ()))
    for n in ("load_and_initialize_actuator", "load_and_initialize_sensor", "load_and_initialize_system", "initialize_actuator", "initialize_sensor", "initialize_system"):
        jobs.append((n, load, (n,)))
    jobs.append(("import of components", whole, ()))
    ctx.pmap(jobs)
