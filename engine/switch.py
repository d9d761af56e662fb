"""interpretation of a switch request (switch_controller_cb) over concrete controller sets"""
import itertools
from . import terms as T
from . import cm as C
from .cm import CmInterp, ACTIVE, INACTIVE, strs, lst, events
from .util import *

UNUSED = ("fld", ("this",), "unused list")
LISTS = ("activate_request", "deactivate_request", "to_chained_mode_request", "from_chained_mode_request", "activate_command_interface_request", "deactivate_command_interface_request")
BASE = "controller_interface::ControllerInterfaceBase::"


def trigger_flags(db):
    """methods of a controller that stop (True) or resume (False) its asynchronous triggers"""
    out = {}
    for fs in db.byn.values():
        for f in fs:
            name = f["q"][len(BASE):]
            if not f["q"].startswith(BASE) or "::" in name or "(" in name or "~" in name or name in ("init", "configure"):
                continue
            for n in walk(f.get("body")):
                if n.get("k") == "call" and n.get("n") in ("store", "operator=") and "skip_async_triggers_" in repr(n.get("recv") or n.get("args")):
                    v = [x["v"] for x in n.get("args", ()) if isinstance(x, dict) and x.get("k") == "bool"]
                    if v:
                        out[name] = bool(v[-1])
    return out


class SwitchInterp(CmInterp):
    """the lists of controllers, the waiting for the loop and the hardware answer freely; everything else is interpreted"""
    RECURSE = 4
    ready_reads = 1
    flags = {}
    ends = None            # states every controller of the request may end in
    plain = False          # the hardware and the loop do what they are asked for

    def on_write(self, s, loc, val, node):
        super().on_write(s, loc, val, node)
        if loc == ("fld", C.SWITCH, "do_switch"):
            self.ev_(s, "do_switch", val, tuple(sorted(str(m[0]) for m in s.locks)), self.lists(s))

    def lists(self, s):
        return tuple((k, self.read(s, ("fld", C.SWITCH, k))) for k in LISTS)

    def on_call(self, s, call):
        n, fq = call.name, call.fq
        if n == "get_updated_list":
            return [(s, ("loc", C.RTLIST))]
        if n == "get_unused_list":
            return [(s, ("loc", UNUSED))]
        if n == "switch_updated_list":
            v = self.read(s, UNUSED)
            while v[0] == "upd":
                v = v[1]
            info = lambda i: ("fld", ("idx", UNUSED, T.c(i)), "info")
            self.ev_(s, "publish", tuple((self.read(s, ("fld", info(i), "name")), self.read(s, ("fld", info(i), "claimed_interfaces"))) for i in range(len(v[1]))) if v[0] == "vec" else None)
            return [(s, T.c(None))]
        if n == "is_resource_manager_initialized":
            return [(s, T.c(True))]
        if n == "cache_controller_to_hardware":
            self.ev_(s, "cache", *call.args[:2])
            return [(s, T.c(None))]
        if n in ("wait_for", "wait_until") and "condition_variable" in fq:
            self.ev_(s, "wait", n)
            if self.plain:
                s = self.carried_out(s)[0]
                self.wr(s, ("fld", C.SWITCH, "do_switch"), T.c(False))
                return [(s, T.c(True))]
            s2 = s.copy()
            self.ev_(s2, "timeout")
            out = [(s2, T.c(False))]
            for s3 in self.carried_out(s):
                self.wr(s3, ("fld", C.SWITCH, "do_switch"), T.c(False))
                out.append((s3, T.c(True)))
            return out
        if n == "wait" and "condition_variable" in fq:
            self.ev_(s, "waitforever")
            return [(s, T.c(None))]
        if n in ("load", "operator bool") or n.startswith("operator ") and "atomic" in fq:
            r = call.recv
            if r is not None and has_sub(r, lambda x: x[0] == "fld" and x[2] == "ready_to_switch"):
                k = sum(e[0] == "ready?" for e in events(s))
                s2 = s.copy()
                self.ev_(s2, "ready?", True)
                if k >= self.ready_reads + 1:
                    return [(s2, T.c(True))]
                self.ev_(s, "ready?", False)
                return [(s, T.c(False)), (s2, T.c(True))]
        if n == "now" and "steady_clock" in fq:
            s.n += 1
            return [(s, ("sym", f"steady{s.n}"))]
        if n == "manage_switch" and fq.startswith("controller_manager"):
            self.ev_(s, "manage", self.lists(s))
            out = []
            for s2 in self.carried_out(s):
                self.wr(s2, ("fld", C.SWITCH, "do_switch"), T.c(False))
                out.append((s2, T.c(None)))
            return out
        if n in self.flags and fq.startswith("controller_interface::"):
            c, role = self.ctl_of(call.recv)
            if c is None and call.recvv is not None:
                c, role = self.ctl_of(call.recvv)
            if c is not None:
                self.ev_(s, "trigger", c.name, not self.flags[n])
                return [(s, T.c(None))]
        return super().on_call(s, call)

    def carried_out(self, s):
        """states after the switch was carried out: completely, or not at all"""
        de = lst(self.read(s, ("fld", C.SWITCH, "deactivate_request")))
        ac = lst(self.read(s, ("fld", C.SWITCH, "activate_request")))
        out = []
        if self.ends is not None and de is not None and ac is not None:
            names = [n for n in self.ctls if n in set(de) | set(ac)]
            for ends in itertools.product(self.ends, repeat=len(names)):
                s2 = s.copy()
                self.ev_(s2, "carried", True)
                for n, e in zip(names, ends):
                    self.set_lc(s2, self.ctls[n], e)
                out.append(s2)
            return out
        for done in (True, False):
            s2 = s.copy()
            self.ev_(s2, "carried", done)
            if done and de is not None and ac is not None:
                for n in de:
                    if n in self.ctls:
                        self.set_lc(s2, self.ctls[n], INACTIVE)
                for n in ac:
                    if n in self.ctls:
                        self.set_lc(s2, self.ctls[n], ACTIVE)
            out.append(s2)
        return out

    def rm_call(self, s, call, n):
        if self.plain and n in ("prepare_command_mode_switch", "perform_command_mode_switch"):
            return [(s, T.c(True))]
        if n in ("command_interface_is_available", "state_interface_is_available") and self.fixed_avail is not None:
            name = call.args[0]
            if T.isc(name):
                ex = self.exported(s)
                owner = name[1].split("/")[0]
                if owner in self.ctls:
                    kind = "reference" if n.startswith("command") else "exported_state"
                    return [(s, T.c(ex.get((owner, kind), dict(s.tags["st"]).get(owner) == ACTIVE)))]
                if self.fixed_avail != "free":
                    return [(s, T.c(name[1] in self.fixed_avail))]
                have = dict(s.tags.get("avail", ()))
                if name[1] not in have:
                    out = []
                    for b in (True, False):
                        s2 = s.copy()
                        s2.tags["avail"] = tuple(sorted({**have, name[1]: b}.items()))
                        out.append((s2, T.c(b)))
                    return out
                return [(s, T.c(have[name[1]]))]
        if n in ("get_controller_reference_interface_names", "get_controller_exported_state_interface_names"):
            c = self.ctls.get(call.args[0][1] if T.isc(call.args[0]) else None)
            return [(s, strs(*(c.refs if "reference" in n else c.exports) if c else ()))]
        if n == "command_interface_is_claimed" and self.claims == "state":
            name = call.args[0]
            if T.isc(name):
                st = dict(s.tags["st"])
                return [(s, T.c(any(st[c.name] == ACTIVE and name[1] in c.cmd for c in self.ctls.values())))]
        return super().rm_call(s, call, n)

    fixed_avail = "free"
    claims = "state"

    def exported(self, s):
        """(controller, kind) -> availability set by the pending request"""
        out = {}
        for e in events(s):
            if e[0] == "export" and T.isc(e[2]):
                for k in ("reference", "exported_state"):
                    if k in e[1]:
                        out[(e[2][1], k)] = not e[1].endswith("unavailable")
        return out


def request(ctx, ctls, activate, deactivate, strictness, asap, extra=None, **kw):
    """interpret one switch request"""
    def setup(I, s):
        I.wr(s, UNUSED, strs())
        this = ("this",)
        for k, refs in (("controller_chained_reference_interfaces_cache_", "cmd"), ("controller_chained_state_interfaces_cache_", "st")):
            m = ("vec", ())
            for c in ctls:
                users = [d.name for d in ctls if any(i.startswith(c.name + "/") for i in getattr(d, refs))]
                m = ("mapset", m, T.c(c.name), strs(*users))
            I.wr(s, ("fld", this, k), m)
        if extra:
            extra(I, s)
    for c in ctls:
        c.refs = sorted({i for d in ctls for i in d.cmd if i.startswith(c.name + "/")})
        c.exports = sorted({i for d in ctls for i in d.st if i.startswith(c.name + "/")})
    return C.run(ctx, "switch_controller_cb", ctls, {0: strs(*activate), 1: strs(*deactivate), 2: T.c(strictness), 3: T.c(asap)}, setup, interp=SwitchInterp, **kw)
