"""P49 controllers that command each other are ordered from leaders to followers."""
import itertools
from engine import terms as T
from engine import cm as C
from engine import manage as M
from engine.cm import Ctl, UNCONF, INACTIVE, ACTIVE, events
from engine.util import *


def graphs(n, kinds):
    """acyclic graphs over 0..n-1 as tuples of (before, after, kind)"""
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    for ch in itertools.product((None,) + tuple((k, d) for k in kinds for d in (0, 1)), repeat=len(pairs)):
        es = [((i, j) if x[1] == 0 else (j, i)) + (x[0],) for (i, j), x in zip(pairs, ch) if x]
        left = set(range(n))
        while True:
            free = {v for v in left if not any(b in left and a == v for b, a, _ in es)}
            if not free:
                break
            left -= free
        if not left:
            yield tuple(es)


def known(es, state, without, target):
    """edges of the configured controllers, as (leader, follower, kind)"""
    return [e for e in es for u in [e[0] if e[2] == "command" else e[1]] if u != without and (u == target or state[u] != UNCONF)]


MAPS = ("controller_chain_spec_", "controller_chained_reference_interfaces_cache_", "controller_chained_state_interfaces_cache_")


def relations(n, es, v):
    """what is recorded for a controller: who follows it, who precedes it, who uses its references, who its states"""
    return ([f"c{a}" for b, a, k in es if b == v], [f"c{b}" for b, a, k in es if a == v],
            [f"c{b}" for b, a, k in es if a == v and k == "command"], [f"c{a}" for b, a, k in es if b == v and k == "state"])


def record(I, s, n, es, target):
    """the state left by earlier requests: the target was configured with other interfaces before"""
    ms = [("vec", ()), ("vec", ()), ("vec", ())]
    rel = {v: [list(x) for x in relations(n, es, v)] for v in range(n)}
    other = (target + 1) % n
    if f"c{other}" not in rel[target][0] + rel[target][1]:
        rel[target][0].append(f"c{other}")
        rel[other][1].append(f"c{target}")
        rel[other][2].append(f"c{target}")
    third = (target + 2) % n
    if third != target and f"c{third}" not in rel[target][0] + rel[target][1]:
        rel[target][1].append(f"c{third}")
        rel[third][0].append(f"c{target}")
        rel[third][3].append(f"c{target}")
    for v in range(n):
        f, p, r, t = rel[v]
        ms[0] = ("mapset", ms[0], T.c(f"c{v}"), ("rec", "controller_manager::ControllerChainSpec", (("following_controllers", C.strs(*f)), ("preceding_controllers", C.strs(*p)))))
        ms[1] = ("mapset", ms[1], T.c(f"c{v}"), C.strs(*r))
        ms[2] = ("mapset", ms[2], T.c(f"c{v}"), C.strs(*t))
    for f, m in zip(MAPS, ms):
        I.wr(s, ("fld", ("this",), f), m)


def recorded(ctx, I, s, n, es, g, state):
    ms = [I.read(s, ("fld", ("this",), f)) for f in MAPS]
    for v in range(n):
        key = T.c(f"c{v}")
        spec, refs, sts = [T.index(m, key) for m in ms]
        gone = [T.mapkeys(m) is not None and key not in T.mapkeys(m) for m in ms]
        got = [[] if gone[0] else C.lst(T.field(spec, "following_controllers")), [] if gone[0] else C.lst(T.field(spec, "preceding_controllers")), [] if gone[1] else C.lst(refs), [] if gone[2] else C.lst(sts)]
        want = relations(n, es, v)
        for x, w, q in zip(got, want, ("following controllers", "preceding controllers", "users of its references", "readers of its states")):
            if x is None or None in x:
                ctx.undecided("the recorded relations", f"{q}: {T.show(spec)[:200]}")
                continue
            ctx.check(set(x) == set(w), "the relations recorded are those of the configured controllers", ctx.where, f"chain {g}; states {state}: {q} of c{v}: {sorted(x)} instead of {sorted(w)}", f"record-{q}")


def one(ctx, n, es, shown, mapped, target):
    cmd = {v: [f"j{v}/x"] for v in range(n)}
    st = {v: [] for v in range(n)}
    src = set()
    for b, a, k in es:
        if k == "command":           # b commands an interface a exports
            cmd[b].append(f"c{a}/r")
            src.add(a)
        else:                        # a reads an interface b exports
            st[a].append(f"c{b}/s")
            src.add(b)
    # the states of the others do not matter: they are varied over the graphs
    state = {v: UNCONF if v == target else (INACTIVE, ACTIVE, INACTIVE, UNCONF)[(v * 5 + len(es) + target) % 4] for v in range(n)}
    by = {v: Ctl(f"c{v}", state[v], cmd=cmd[v], st=st[v], chainable=v in src, throws=False) for v in range(n)}
    I, outs = M.request(ctx, "configure_controller", [by[v] for v in shown], {0: T.c(f"c{target}")}, order=[by[v] for v in mapped],
                        setup=lambda I, s: record(I, s, n, known(es, state, target, target), target), ends={"configure": (INACTIVE,)}, node_throws=False, export_throws=False, exporting=(True,))
    ctx.saw_interp(I)
    what = "the update order"
    pubs = 0
    g = ", ".join(f"c{b}->c{a} ({k} interface)" for b, a, k in es)
    for kind, s, v in outs:
        if kind != "ret":
            ctx.undecided(what, f"ends with {kind} {s.exc}")
            continue
        if T.eq(v, I.ret_enum("OK")) == T.FALSE:
            continue
        pub = [e[1] for e in events(s) if e[0] == "publish"]
        if T.eq(v, I.ret_enum("OK")) != T.TRUE or len(pub) != 1 or pub[0] is None or None in pub[0]:
            ctx.undecided(what, f"result {T.show(v)}, published {pub}"[:300])
            continue
        if any("ordered_controllers_names_" in repr(x) for x in s.facts):
            ctx.undecided(what, "the order depends on conditions that are not understood")
            continue
        pubs += 1
        at = {c: i for i, c in enumerate(pub[0])}
        z = f"chain {g}; controllers handled in the order {['c%d' % x for x in mapped]}: the update order is {list(pub[0])}"
        recorded(ctx, I, s, n, known(es, state, None, target), g, state)
        ctx.check(sorted(pub[0]) == sorted(c.name for c in by.values()), "reordering keeps every controller exactly once", ctx.where, z)
        for b, a, k in es:
            x, y = at.get(f"c{b}"), at.get(f"c{a}")
            user = b if k == "command" else a
            if x is not None and y is not None and (user == target or state[user] != UNCONF):
                ctx.check(x < y, "a controller is updated before the controllers that depend on it", ctx.where, z)
    if not pubs:
        ctx.undecided(what, f"no path configures a controller ({g})")


def orders(n, full):
    """orders of the list and of the map; all labellings of a graph are enumerated, so one order of the map is enough"""
    ids = tuple(range(n))
    lists = list(itertools.permutations(ids))
    if n == 4:
        lists = lists[::7] + [ids[::-1]] if full else [ids, ids[::-1]]
    return [(x, ids) for x in lists]


def group(ctx, n, part, parts, kinds, full):
    for i, es in enumerate(graphs(n, kinds)):
        if i % parts == part and es:
            for shown, mapped in orders(n, full):
                one(ctx, n, es, shown, mapped, i % n)


def run(ctx):
    f = ctx.db.one(C.CM + "configure_controller")
    ctx.where = where(f)
    ctx.rule("The reordering done when a controller is configured is interpreted abstractly for every acyclic graph of up to four chained controllers, every order of the map that is walked and several orders of the controller list; the published list is compared with the edges of the graph.")
    ctx.assumption("an edge means a command interface exported by the follower or a state interface exported by the leader; the graph of both kinds is acyclic; at most four controllers (three when both kinds are mixed)")
    full = ctx.tier == "thorough"
    tasks = [(f"4 controllers, part {k}", group, (ctx, 4, k, 32, ("command",), full)) for k in range(32)]
    tasks += [(f"3 controllers, part {k}", group, (ctx, 3, k, 8, ("command", "state"), True)) for k in range(8)]
    ctx.pmap(tasks)
