"""interpretation of the operations that change the list of controllers (load, configure, clean up, unload)"""
from . import terms as T
from . import cm as C
from .cm import CmInterp, UNCONF, INACTIVE, ACTIVE, FINAL, strs, lst, events
from .interp import State
from .util import *

UNUSED = ("fld", ("this",), "unused list")
NEED = {"activate": (INACTIVE,), "deactivate": (ACTIVE,), "configure": (UNCONF,), "cleanup": (INACTIVE,), "shutdown": (UNCONF, INACTIVE, ACTIVE)}


class ManageInterp(CmInterp):
    declared = {}                # classes the loaders know
    """loading, exporting and importing answer freely; everything else is interpreted"""
    RECURSE = 8
    LIMIT = 60000
    exports = ("state", "reference")      # what chainable controllers export
    loadable = ("plain", "chainable")
    creates = "n"                          # name of the controller the class loaders create
    params = {}
    ends = None                           # results of transitions, None: all
    export_throws = True
    exporting = (True, False)             # whether the exports of a kind are non-empty

    def on_call(self, s, call):
        n, fq = call.name, call.fq
        if n == "get_updated_list":
            return [(s, ("loc", self.list_of(s)))]
        if n == "get_unused_list":
            return [(s, ("loc", self.list_of(s, True)))]
        if n == "switch_updated_list":
            s.tags["flip"] = not s.tags.get("flip", False)
            self.ev_(s, "publish", self.names_of(s, self.list_of(s)))
            return [(s, T.c(None))]
        if n in ("add_node", "remove_node") and "xecutor" in fq:
            who = [x[1][5:] for a in call.args for x in T.subterms(a) if x[0] == "sym" and isinstance(x[1], str) and x[1].startswith("node ")]
            self.ev_(s, n, who[0] if who else None)
            return [(s, T.c(None))]
        if n == "isClassAvailable":
            kind = self.loader(call)
            if kind:
                have = dict(s.tags.get("classes", ()))
                if kind in have:
                    return [(s, T.c(have[kind]))]
                out = []
                for b in (True, False):
                    s2 = s.copy()
                    s2.tags["classes"] = tuple(sorted({**have, kind: b}.items()))
                    out.append((s2, T.c(b)))
                return out
        if n == "createSharedInstance":
            kind = self.loader(call)
            if kind:
                self.ev_(s, "create", kind, call.args[0] if call.args else None)
                self.throw(s, call, n, "res", "create")
                return [(s, ("sym", "ctl " + self.creates))]
        if n == "getDeclaredClasses":
            return [(s, strs(*self.declared.get(self.loader(call), ())))]
        if n in ("stub_register", "stub_unregister", "customRegister"):
            self.ev_(s, "register" if n != "stub_unregister" else "unregister", call.args[1] if len(call.args) > 1 else None)
            return [(s, T.c(None))]
        if n == "has_parameter" and len(call.args) == 1:
            return [(s, T.c(True))]
        if n in ("declare_parameter", "set_parameter"):
            return [(s, T.c(None))]
        if n == "get_parameter" and len(call.args) == 2 and call.argl[1] is not None:
            v = [x for k, x in self.params.items() if k in repr(call.args[0])]
            if v:
                self.wr(s, call.argl[1], v[0])
            return [(s, T.c(bool(v)))]
        if n == "determine_controller_node_options":
            return [(s, ("sym", "node options"))]
        return super().on_call(s, call)

    def truth_hook(self, s, t):
        """controllers are no null pointers"""
        ctl = lambda x: x[0] == "sym" and isinstance(x[1], str) and x[1].startswith("ctl ")
        x = t[1] if t[0] == "bool" and len(t) > 1 else t
        if ctl(x):
            return True
        if t[0] == "==" and len(t) == 3 and any(ctl(x) for x in t[1:]) and T.c(None) in t[1:]:
            return False
        return super().truth_hook(s, t)

    def list_of(self, s, unused=False):
        """the list the control loop reads, or the other one"""
        return UNUSED if s.tags.get("flip", False) != unused else C.RTLIST

    def loader(self, call):
        for t in (call.recv, call.recvv):
            if t is not None:
                x = repr(t)
                if "chainable_loader_" in x:
                    return "chainable"
                if "loader_" in x:
                    return "plain"
        return None

    def names_of(self, s, loc):
        v = self.read(s, loc)
        while v[0] == "upd":
            v = v[1]
        if v[0] != "vec":
            return None
        out = [self.read(s, ("fld", ("fld", ("idx", loc, T.c(i)), "info"), "name")) for i in range(len(v[1]))]
        return tuple(x[1] if T.isc(x) else None for x in out)

    def ctl_call(self, s, call, c, role, n):
        if (role == "node" and n in ("configure", "cleanup", "shutdown")) or (role == "ctl" and n == "configure"):
            self.ev_(s, "node", n, c.name, self.lc(s, c))
            if c.throws and self.node_throws:
                self.throw(s, call, n, "res", n, c.name)
            if self.lc(s, c) not in NEED[n]:
                self.ev_(s, "res", n, c.name, self.lc(s, c))
                return [(s, self.state_value(self.lc(s, c)))]
            out = []
            for e in (self.ends or {}).get(n) or {"configure": (INACTIVE, UNCONF, FINAL), "cleanup": (UNCONF, INACTIVE, FINAL), "shutdown": (FINAL, UNCONF)}[n]:
                s2 = s.copy()
                self.ev_(s2, "res", n, c.name, e)
                self.set_lc(s2, c, e)
                out.append((s2, self.state_value(e)))
            return out
        if role == "ctl" and n == "init":
            self.ev_(s, "init", c.name)
            self.throw(s, call, n, "res", "init", c.name)
            out = []
            for m in self.rt:
                s2 = s.copy()
                self.ev_(s2, "res", "init", c.name, m)
                out.append((s2, self.ret_enum(m)))
            return out
        if role == "ctl" and n in ("export_state_interfaces", "export_reference_interfaces"):
            kind = n.split("_")[1]
            self.ev_(s, "exported", c.name, kind)
            if self.export_throws:
                s2 = s.copy()
                self.ev_(s2, "res", "exported", c.name, "throw")
                s2.exc = ("std::runtime_error", call.line, n)
                self.sink.append(s2)
            out = []
            for some in self.exporting:
                s2 = s.copy()
                self.ev_(s2, "res", "exported", c.name, kind, some)
                out.append((s2, ("vec", (("sym", f"{kind} of {c.name}"),) if some else ())))
            return out
        if role == "ctl" and n == "set_chained_mode":
            self.ev_(s, "chained", c.name, self.lc(s, c), call.args[0])
            return [(s, T.c(True))]
        return super().ctl_call(s, call, c, role, n)

    def rm_call(self, s, call, n):
        if n.startswith(("import_controller_", "remove_controller_")):
            kind = "reference" if "reference" in n else "state"
            self.ev_(s, n.split("_")[0], kind, call.args[0], call.args[1] if len(call.args) > 1 else None)
            return [(s, T.c(None))]
        return super().rm_call(s, call, n)


def registered(ev, name, before=()):
    """kinds of exports registered for a controller after the events"""
    have = set(before)
    for e in ev:
        if e[0] == "import" and e[2] == T.c(name):
            have.add(e[1])
        if e[0] == "remove" and e[2] == T.c(name):
            have.discard(e[1])
    return have


def request(ctx, fname, ctls, args, pick=None, setup=None, hidden=(), **kw):
    """interpret one operation; ctls in `hidden` exist but are not in the list"""
    def prep(I, s):
        I.wr(s, UNUSED, strs())
        this = ("this",)
        shown = [c for c in ctls if c.name not in hidden]
        I.wr(s, C.RTLIST, ("vec", tuple(C.spec_value(I, c) for c in shown)))
        for f in ("controller_chain_spec_", "controller_chained_reference_interfaces_cache_", "controller_chained_state_interfaces_cache_"):
            m = ("vec", ())
            for c in (kw.get("order") or shown):
                m = ("mapset", m, T.c(c.name), ("rec", "controller_manager::ControllerChainSpec", (("following_controllers", strs()), ("preceding_controllers", strs()))) if "spec" in f else strs())
            I.wr(s, ("fld", this, f), m)
        I.wr(s, ("fld", this, "ordered_controllers_names_"), strs())
        if setup:
            setup(I, s)
    fns = ctx.db.find(C.CM + fname)
    if pick:
        fns = [f for f in fns if pick(f)]
    if not fns:
        from .db import AnchorMissing
        raise AnchorMissing(C.CM + fname)
    kw2 = {k: v for k, v in kw.items() if k != "order"}
    return C.run(ctx, fname, ctls, args, prep, interp=ManageInterp, fns=fns, **kw2)
