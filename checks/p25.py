"""P25 locks are taken in one order."""
from engine.db import walk
from engine.locks import Locks, base_name, GUARDS
from engine.util import *

SINGLE = ("hardware_interface::ResourceManager::", "controller_manager::ControllerManager::", "controller_manager::SwitchParams", "controller_manager::ControllerManager::RTControllerListWrapper::")
NONREC = ("std::mutex", "std::shared_mutex", "std::timed_mutex", "std::shared_timed_mutex")


def short(x):
    return "::".join(x.split("::")[-2:])


def chain(ch):
    return " > ".join(f"{c[0].split('::')[-1]} ({c[1].split('/')[-1]}:{c[2]})" for c in ch)


def rectype(db, lock):
    cls, fld = lock.rsplit("::", 1)
    for q, r in db.recs.items():
        if q == cls or q.split("<")[0] == cls.split("<")[0]:
            for f in r.get("fields", []):
                if f["n"] == fld:
                    return base_name(f["t"])
    return None


def graph(db):
    L = Locks(db)
    edges, selfs, nsites = {}, {}, 0
    for f in list(db.fns.values()):
        if not f.get("body"):
            continue
        for (hs, kind, w, _), ch in L.summary(f).items():
            if kind == "wait":
                continue
            nsites += 1
            names = {h[0] for h in hs}
            if w in hs and w[1] != "other":
                selfs.setdefault(w[0], ch)
            if kind != "lock":
                continue
            if w[0] in names:
                continue   # already held: a recursive acquisition adds no order
            for h in names:
                edges.setdefault((h, w[0]), {}).setdefault(frozenset(names), ch)
    return L, edges, selfs, nsites


def run(ctx):
    ctx.rule("The lock-order graph of all functions (guards, explicit lock/unlock, std::lock, condition waits; lambdas, bound functions and std::function members resolved) "
             "is built interprocedurally with the set of locks held at every blocking acquisition; every cycle in it whose acquisitions are not all made under a common gate lock is a violation, "
             "as is a blocking acquisition of a non-recursive mutex that the same path already holds on the same object. Re-acquiring a held recursive mutex adds no order; locks of one scoped_lock have none.")
    ctx.assumption("locks are identified by class and member; two objects of the same class are not ordered against each other; gate locks are those of the managers, of which one exists per process")
    db = ctx.db
    L, edges, selfs, n = graph(db)
    locks = {a for e in edges for a in e}
    for need in ("hardware_interface::ResourceManager::resources_lock_", "controller_manager::ControllerManager::services_lock_"):
        if not any(x == need for x in locks):
            ctx.undecided("lock graph", f"{need} is never acquired in a nesting")
    for f in db.fns.values():
        own = [v for nd in walk(f.get("body")) if nd.get("k") == "decl" for v in nd.get("vars", []) if base_name(v.get("t")) in GUARDS]
        if own:
            ctx.saw(f)
        for v in own:
            g = L.guard(v, f)
            if not g[0] and g[1] not in ("adopt",) and (v.get("init") or {}).get("args"):
                ctx.undecided("lock graph", f"unrecognised mutex of a guard in {f['q']} ({f['file']}:{v.get('l')})")
    ctx.calls += n
    for l, ch in selfs.items():
        t = rectype(db, l)
        ctx.check(t not in NONREC, "no path acquires a non-recursive lock it already holds", f"{ch[0][1]}: {ch[0][0]}",
                  f"{short(l)} is a {t} and is acquired again while held: {chain(ch)}", f"relock {short(l)}")
    for a in sorted(locks):
        if rectype(db, a) in NONREC and a not in selfs:
            ctx.ok("no path acquires a non-recursive lock it already holds", a)
    succ = {}
    for a, b in edges:
        succ.setdefault(a, set()).add(b)
    done = set()

    def gated(sets, cyc):
        """every two acquisitions of the cycle share a gate lock outside it"""
        return any((sets[i] & sets[j]) - set(cyc) and any(x.startswith(SINGLE) for x in (sets[i] & sets[j]) - set(cyc))
                   for i in range(len(sets)) for j in range(i))

    def combos(cyc):
        ks = [(cyc[i], cyc[(i + 1) % len(cyc)]) for i in range(len(cyc))]

        def rec(i, sets, chs):
            if i == len(ks):
                return None if gated(sets, cyc) else (sets, chs)
            for hs, ch in edges[ks[i]].items():
                r = rec(i + 1, sets + [hs], chs + [ch])
                if r:
                    return r
            return None
        return rec(0, [], [])

    def search(path):
        for b in sorted(succ.get(path[-1], ())):
            if b == path[0] and len(path) > 1:
                key = frozenset(path)
                if key in done:
                    continue
                r = combos(path)
                if r:
                    done.add(key)
                    ch = min(r[1], key=len)
                    ctx.bad("no two paths acquire locks in opposite orders", f"{ch[-1][1]}: {ch[-1][0]}",
                            " and ".join(f"{short(path[i])} held while acquiring {short(path[(i + 1) % len(path)])} by {chain(c)}" for i, c in enumerate(r[1])),
                            "order " + " ".join(sorted(short(x) for x in path)))
            elif b > path[0] and b not in path and len(path) < 4:
                search(path + [b])
    for a in sorted(succ):
        search([a])
    for a, b in sorted(edges):
        if not any(a in k and b in k for k in done):
            ctx.ok("no two paths acquire locks in opposite orders", f"{short(a)} before {short(b)}")
