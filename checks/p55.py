"""P55 the outcome of a switch is reported truthfully."""
from engine import terms as T
from engine import cm as C
from engine import switch as S
from engine.cm import Ctl, UNCONF, INACTIVE, ACTIVE, FINAL, NAMES, lst, strs, events
from engine.util import *

HW = {"j/x", "j/y", "j/z", "j/s"}
AVAIL = ["j/w", "j/x", "j/y", "j/z"]


def claims(c):
    """command interfaces the configuration of a controller means"""
    return AVAIL if c.ctype == "ALL" else list(c.cmd) if c.ctype == "INDIVIDUAL" else [i for i in c.cmd if i in AVAIL]


def one(ctx, what, ctls, act, de, strictness, asap):
    def setup(I, s):
        recs = []
        for c, r in zip(ctls, lst0(I.read(s, C.RTLIST))):
            info = dict(r[2])["info"]
            info = ("rec", info[1], tuple((k, strs("j/stale") if k == "claimed_interfaces" else v) for k, v in info[2]))
            recs.append(("rec", r[1], tuple((k, info if k == "info" else v) for k, v in r[2])))
        I.wr(s, C.RTLIST, ("vec", tuple(recs)))
        I.avail_cmd = list(AVAIL)
    I, outs = S.request(ctx, ctls, act, de, strictness, asap, extra=setup, fixed_avail=HW, ends=(INACTIVE, ACTIVE, UNCONF), rm_throws=False)
    ctx.saw_interp(I)
    what = f"{what}, {'STRICT' if strictness == 2 else 'BEST_EFFORT'}, {'as soon as possible' if asap else 'by the requester'}"
    by = {c.name: c for c in ctls}
    for kind, s, v in outs:
        ev = events(s)
        if not any(e[0] == "carried" for e in ev):
            continue
        if kind != "ret":
            ctx.undecided(what, f"ends with {kind} {s.exc}")
            continue
        ok = T.eq(v, I.ret_enum("OK"))
        st = dict(s.tags["st"])
        z = f"{what}: afterwards " + ", ".join(f"{n} is {NAMES.get(x, x)}" for n, x in sorted(st.items()))
        sw = [e for e in ev if e[0] == "do_switch" and e[1] == T.c(True)]
        L = {k: lst(x) for k, x in sw[-1][3]} if sw else {}
        A, D = L.get("activate_request"), L.get("deactivate_request")
        if not T.isc(ok) or A is None or D is None:
            ctx.undecided(what, f"result {T.show(v)}")
            continue
        good = all(st[n] == ACTIVE for n in A) and all(st[n] != ACTIVE for n in D if n not in A)
        ctx.check((ok == T.TRUE) == good, "the result tells whether all controllers were switched", ctx.where, f"{z}: {'OK' if ok == T.TRUE else 'ERROR'} is returned")
        pub = [e for e in ev if e[0] == "publish"]
        ctx.check(len(pub) == 1, "the controller list is published once", ctx.where, f"{z}: {len(pub)} times")
        for e in pub:
            recs = e[1]
            if recs is None:
                ctx.undecided(what, "published list")
                continue
            names = []
            for nm, cl in recs:
                cl = lst(cl)
                if not T.isc(nm) or cl is None or nm[1] not in by:
                    ctx.undecided(what, f"published controller {T.show(nm)}")
                    continue
                names.append(nm[1])
                want = claims(by[nm[1]]) if st[nm[1]] == ACTIVE else []
                ctx.check(sorted(cl) == sorted(want), "the claimed interfaces of every controller are published", ctx.where, f"{z}: claimed interfaces of {nm[1]} are {cl} instead of {want}")
            ctx.check(names == [c.name for c in ctls] or len(names) < len(recs), "all controllers are published", ctx.where, f"{z}: {names} of {[c.name for c in ctls]}")


def lst0(v):
    return list(v[1]) if v is not None and v[0] == "vec" else None


def scenarios():
    A, I = ACTIVE, INACTIVE
    w = lambda sa, sb, sc, **k: [Ctl("a", sa, cmd=["j/x"], st=["j/s"]), Ctl("b", sb, cmd=["j/y", "j/q"] if k.get("t") == "INDIVIDUAL_BEST_EFFORT" else ["j/y"], ctype=k.get("t", "INDIVIDUAL")), Ctl("c", sc, cmd=["j/z"])]
    yield "activation of a", w(I, A, I), ["a"], []
    yield "deactivation of b", w(I, A, A), [], ["b"]
    yield "exchange of b by a", w(I, A, A), ["a"], ["b"]
    yield "activation of a and c", w(I, A, I), ["a", "c"], []
    yield "deactivation of a and c", w(A, I, A), [], ["a", "c"]
    yield "restart of b", w(I, A, A), ["b"], ["b"]
    yield "restart of b and activation of c", w(I, A, I), ["b", "c"], ["b"]
    yield "restart of a and deactivation of c", w(A, I, A), ["a"], ["c", "a"]
    for t in ("INDIVIDUAL_BEST_EFFORT", "NONE"):
        yield f"activation of b ({t})", w(I, I, A, t=t), ["b"], []
    yield "deactivation of everything", w(A, A, A), [], ["a", "b", "c"]


def group(ctx, i):
    name, ctls, act, de = list(scenarios())[i]
    if any(c.ctype == "NONE" for c in ctls):
        for c in ctls:
            if c.ctype == "NONE":
                c.cmd = ()
    for strictness in (1, 2):
        for asap in (True, False):
            one(ctx, name, ctls, act, de, strictness, asap)


def run(ctx):
    f = ctx.db.one(C.CM + "switch_controller_cb")
    ctx.where = where(f)
    ctx.rule("Accepted switch requests are interpreted abstractly for every state in which each controller of the request can end; the returned result and the published list of controllers are compared with these states.")
    ctx.assumption("the loop or the requester carried the switch out (P31, P51), every timeout is P29")
    ctx.pmap([(n, group, (ctx, i)) for i, (n, *_) in enumerate(scenarios())])
