"""Interprocedural lock analysis over the typed syntax trees: which locks are (or may be) held at every acquisition and call,
with lambdas, bound functions and std::function members resolved to their possible targets."""
from .db import walk, strip_targs

GUARDS = {"std::lock_guard", "std::unique_lock", "std::shared_lock", "std::scoped_lock"}
TAGS = {"try_to_lock": "try", "defer_lock": "defer", "adopt_lock": "adopt"}
# library functions that keep a callable and run it later, outside the caller's context
LATER = {"create_service", "create_subscription", "create_wall_timer", "create_timer", "create_generic_subscription", "add", "thread", "jthread", "async", "init",
         "add_on_set_parameters_callback", "add_post_set_parameters_callback", "add_pre_set_parameters_callback", "add_pre_shutdown_callback", "add_on_shutdown_callback",
         "register_callback", "on_shutdown", "create_publisher", "emplace_back", "push_back", "insert", "emplace", "make_shared", "make_unique", "set_callback", "start_thread"}
WAITS = {"sleep_for", "sleep_until", "wait", "wait_for", "wait_until", "join", "sleep", "usleep", "nanosleep", "clock_nanosleep", "get_future", "lock"}


def base_name(t):
    return strip_targs(t or "").replace("const ", "").strip(" &*")


class Locks:
    def __init__(self, db):
        self.db = db
        self.ptargets = {}      # (fn usr, index) -> set of callables
        self.ftargets = {}      # field q -> set of callables
        self.vars = {}          # fn usr -> {var id: init}
        self.lam = {}           # id(lambda) -> (node, owner fn)
        self.roots_later = {}   # callables run later by a library: callable -> (fn, line)
        self.memo = {}
        self.busy = set()
        self.unresolved = set()
        self.together = {}      # (file, line) -> locks acquired together there
        for f in db.fns.values():
            self.index(f)
        self.bind_callables()

    # -- callables ---------------------------------------------------------------------
    def index(self, f):
        vs = self.vars[f["u"]] = {}
        for root in [f.get("body")] + [i.get("e") for i in f.get("inits", [])]:
            for n in walk(root):
                if n.get("k") == "decl":
                    for v in n.get("vars", []):
                        if v.get("init"):
                            vs.setdefault(v["id"], []).append(v["init"])
                elif n.get("k") == "lambda":
                    self.lam[id(n)] = (n, f)
                    for i, p in enumerate(n.get("params", [])):
                        vs.setdefault(p["id"], [])
                elif n.get("k") == "asg" and n["a"].get("k") == "ref":
                    vs.setdefault(n["a"].get("id"), []).append(n["b"])

    def pidx(self, f, vid):
        for i, p in enumerate(f["params"]):
            if p["id"] == vid:
                return i
        return None

    def targets(self, e, f, depth=0):
        """possible callables an expression denotes"""
        if not e or depth > 8:
            return set()
        k = e.get("k")
        if k == "lambda":
            return {("lam", id(e))}
        if k == "ref":
            if e.get("dk") == "fn" and e.get("u"):
                return {("fn", e["u"])}
            out = set()
            i = self.pidx(f, e.get("id"))
            if i is not None:
                out |= self.ptargets.get((f["u"], i), set())
            for x in self.vars.get(f["u"], {}).get(e.get("id"), ()):
                out |= self.targets(x, f, depth + 1)
            return out
        if k == "mem" and e.get("dk") == "field":
            return set(self.ftargets.get(e.get("q"), ()))
        if k == "mem" and e.get("u"):
            return {("fn", e["u"])}
        if k == "un":
            return self.targets(e.get("e"), f, depth + 1)
        if k == "cast":
            return self.targets(e.get("e"), f, depth + 1)
        if k in ("ctor", "copyctor"):
            a = e.get("args") or ([e["e"]] if e.get("e") else [])
            return self.targets(a[0], f, depth + 1) if a else set()
        if k == "call" and e.get("n") in ("bind", "move", "forward", "ref", "cref") and e.get("args"):
            return self.targets(e["args"][0], f, depth + 1)
        if k == "cond":
            return self.targets(e.get("a"), f, depth + 1) | self.targets(e.get("b"), f, depth + 1)
        return set()

    def bind_callables(self):
        for _ in range(4):
            ch = False
            for f in self.db.fns.values():
                for root in [f.get("body")] + [i.get("e") for i in f.get("inits", [])]:
                    for n in walk(root):
                        k = n.get("k")
                        if k == "call" and n.get("op") == "=" and n.get("args") and n["args"][0].get("k") == "mem":
                            ch |= self.addf(n["args"][0].get("q"), self.targets(n["args"][1], f))
                        elif k == "asg" and n["a"].get("k") == "mem":
                            ch |= self.addf(n["a"].get("q"), self.targets(n["b"], f))
                        if k == "call" and n.get("op") == "()" and n.get("args"):
                            for c in self.targets(n["args"][0], f):
                                if c[0] == "lam":
                                    ln, lf = self.lam[c[1]]
                                    for p, a in zip(ln.get("params", []), n["args"][1:]):
                                        l = self.vars[lf["u"]].setdefault(p["id"], [])
                                        if not any(a is x for x in l):
                                            l.append(a)
                                            ch = True
                        if k in ("call", "ctor") and n.get("u") in self.db.fns:
                            g = self.db.fns[n["u"]]
                            args = n.get("args", [])
                            if k == "call" and n.get("op") and n.get("mem") and not n.get("recv"):
                                args = args[1:]
                            for i, a in enumerate(args):
                                t = self.targets(a, f)
                                if t:
                                    s = self.ptargets.setdefault((g["u"], i), set())
                                    if not t <= s:
                                        s |= t
                                        ch = True
                for i in f.get("inits", []):
                    if i.get("n") or i.get("q"):
                        ch |= self.addf(i.get("q"), self.targets(i.get("e"), f))
            if not ch:
                break

    def addf(self, q, t):
        if not q or not t:
            return False
        s = self.ftargets.setdefault(q, set())
        if t <= s:
            return False
        s |= t
        return True

    # -- locks -------------------------------------------------------------------------
    def inst(self, b):
        """the object a member belongs to: this, a variable, or some other one"""
        while b and b.get("k") in ("cast", "un") and b.get("e"):
            b = b["e"]
        if b and b.get("k") == "call" and b.get("op") in ("->", "*") and b.get("args"):
            return self.inst(b["args"][0])
        if not b or b.get("k") == "this":
            return "this"
        if b.get("k") == "ref" and b.get("id") is not None and b.get("dk") != "fn":
            return f"v{b['id']}"
        return "other"

    def lock_of(self, e, f, depth=0):
        """(lock name, 'this'|'other') of a mutex expression"""
        if not e or depth > 6:
            return None
        k = e.get("k")
        if k == "mem" and e.get("dk") == "field":
            return (e.get("q") or e["n"], self.inst(e.get("b")))
        if k == "call":
            g = self.db.fns.get(e.get("u"))
            if g is not None:
                for n in walk(g.get("body")):
                    if n.get("k") == "ret" and n.get("e"):
                        r = self.lock_of(n["e"], g, depth + 1)
                        if r:
                            return (r[0], self.inst(e.get("recv")) if r[1] == "this" else "other")
            return None
        if k == "ref":
            for x in self.vars.get(f["u"], {}).get(e.get("id"), ()):
                r = self.lock_of(x, f, depth + 1)
                if r:
                    return r
            if "mutex" in (e.get("t") or ""):
                return (f"{f['q']}::{e.get('n')}", "other")
            return None
        if k in ("un", "cast"):
            return self.lock_of(e.get("e"), f, depth + 1)
        return None

    def guard(self, v, f):
        """(locks, mode) if a variable is a lock guard"""
        init = v.get("init") or {}
        t = base_name(v.get("t"))
        if t not in GUARDS:
            return None
        mode, locks = "lock", []
        while init.get("k") in ("cast", "copyctor") and init.get("e"):
            init = init["e"]
        for a in init.get("args", []):
            nm = a.get("n") or ((a.get("e") or {}).get("n")) or ""
            for x in walk(a):
                if x.get("n") in TAGS:
                    nm = x["n"]
            if nm in TAGS:
                mode = TAGS[nm]
                continue
            if a.get("k") == "call" and "chrono" in (a.get("t") or ""):
                mode = "timed"
                continue
            l = self.lock_of(a, f)
            if l:
                locks.append(l)
        return locks, mode

    def of_callable(self, c):
        if c[0] == "lam":
            n, f = self.lam[c[1]]
            return n, f
        return None, self.db.fns.get(c[1])

    def summary(self, f, lam=None):
        """events of a function: set of (held locks, kind, what, site chain) for blocking and non-blocking acquisitions and waits,
        relative to nothing held on entry"""
        key = id(lam) if lam is not None else f["u"]
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return {}
        self.busy.add(key)
        w = Walker(self, f)
        body = lam.get("body") if lam is not None else f.get("body")
        if lam is None:
            for i in f.get("inits", []):
                w.expr(i.get("e"))
        w.stmt(body)
        self.busy.discard(key)
        if not self.busy:
            self.memo[key] = w.out
        elif key not in self.memo and not w.cut:
            self.memo[key] = w.out
        return w.out


class Walker:
    def __init__(self, L, f):
        self.L, self.f = L, f
        self.held = ()           # ((lock, inst), guard var id, mode)
        self.out = {}            # (heldset, kind, what, function of the site) -> site chain
        self.cut = False
        self.guards = {}         # var id -> (locks, mode)

    def emit(self, kind, what, line, chain=(), heldset=None, inst=None):
        hs = frozenset((l, i) for l, i in {(x[0][0], x[0][1]) for x in self.held}) | (heldset or frozenset())
        ch = ((self.f["q"], self.f["file"], line),) + chain
        self.out.setdefault((hs, kind, what, ch[-1][0]), ch)

    def acquire(self, l, mode, vid, line):
        kind = "lock" if mode in ("lock", "timed") else "try"
        if mode not in ("defer",):
            if mode != "adopt":
                self.emit(kind, l, line)
            self.held = self.held + ((l, vid, mode),)

    def callee(self, g, lam, line, obj):
        """obj: the instance the callee runs on ("this", a variable, "other"), or "same" for a lambda of this function"""
        sub = self.L.summary(g, lam)
        if (id(lam) if lam is not None else g["u"]) in self.L.busy:
            self.cut = True
        for (hs, kind, what, _), chain in list(sub.items()):
            def m(x):
                return x if obj == "same" else (x[0], obj if x[1] == "this" else "other")
            hs2 = frozenset(m(x) for x in hs)
            w2 = m(what) if isinstance(what, tuple) else what
            if len(chain) < 14:
                self.emit(kind, w2, line, chain, hs2)

    # -- statements ------------------------------------------------------------------------
    def stmt(self, n):
        if not n:
            return
        k = n.get("k")
        if k == "block":
            h = self.held
            ids = set()
            for s in n.get("s", []):
                self.stmt(s)
                if s and s.get("k") == "decl":
                    ids |= {v.get("id") for v in s.get("vars", [])}
            self.held = tuple(x for x in self.held if x[1] not in ids)
            return
        if k == "decl":
            for v in n.get("vars", []):
                g = self.L.guard(v, self.f)
                if g is not None:
                    self.guards[v["id"]] = g
                    if g[1] == "defer":
                        continue
                    locks, mode = g
                    # several locks of one guard are acquired together, without an order among them
                    before = self.held
                    add = ()
                    for l in locks:
                        self.held = before
                        self.acquire(l, mode, v["id"], n.get("l"))
                        add += self.held[len(before):]
                    self.held = before + add
                    if len(locks) > 1:
                        self.L.together[(self.f["file"], n.get("l"))] = {l[0] for l in locks}
                elif v.get("init"):
                    self.expr(v["init"])
            return
        if k == "if":
            self.stmt(n.get("init"))
            self.expr(n.get("c"))
            g, neg = self.owns(n.get("c"))
            h = self.held
            if g is not None and neg:
                self.held = tuple(x for x in h if x[1] != g)
            self.stmt(n.get("a"))
            ha = () if self.leaves(n.get("a")) else self.held
            self.held = h
            if g is not None and not neg:
                self.held = tuple(x for x in h if x[1] != g)
            self.stmt(n.get("b"))
            hb = () if n.get("b") and self.leaves(n.get("b")) else self.held
            if g is not None and not neg and not n.get("b"):
                hb = self.held
            if g is not None and neg and self.leaves(n.get("a")):
                self.held = h
                return
            self.held = hb + tuple(x for x in ha if x not in hb)
            return
        if k in ("for", "while", "do", "forr", "switch", "try", "expr", "ret", "case", "default", "label"):
            for key, v in n.items():
                if key in ("k", "l", "el", "t"):
                    continue
                self.any(v)
            return
        if "s" in n or "body" in n:
            for key, v in n.items():
                self.any(v)
            return
        self.expr(n)

    def leaves(self, n):
        if not n:
            return False
        if n.get("k") == "block":
            s = [x for x in n.get("s", []) if x]
            return bool(s) and self.leaves(s[-1])
        return n.get("k") in ("ret", "throw", "cont", "break") or (n.get("k") == "expr" and (n.get("e") or {}).get("k") == "throw")

    def owns(self, c):
        """(guard variable, negated) if a condition asks whether a guard owns its lock"""
        neg = False
        c = c or {}
        while c.get("k") in ("un", "cast", "expr"):
            if c.get("k") == "un" and c.get("op") == "!":
                neg = not neg
            c = c.get("e") or {}
        if c.get("k") == "call" and c.get("n") in ("owns_lock", "operator bool", "try_lock"):
            r = c.get("recv") or {}
            if r.get("k") == "ref" and r.get("id") in self.guards:
                return r["id"], neg
        return None, False

    def any(self, v):
        if isinstance(v, dict):
            if v.get("k") in ("block", "decl", "if", "for", "while", "do", "forr", "switch", "try", "expr", "ret", "case", "default"):
                self.stmt(v)
            elif "k" in v:
                self.expr(v)
            else:
                for x in v.values():
                    self.any(x)
        elif isinstance(v, list):
            for x in v:
                self.any(x)

    # -- expressions -----------------------------------------------------------------------
    def expr(self, n):
        if not isinstance(n, dict) or not n.get("k"):
            return
        k = n["k"]
        if k == "lambda":
            return
        if k == "call":
            return self.call(n)
        if k in ("ctor",):
            args = n.get("args", [])
            for a in args:
                self.expr(a)
            g = self.L.db.fns.get(n.get("u"))
            if g is not None:
                self.callee(g, None, n.get("l"), "other")
            self.passed(n, args)
            return
        for key, v in n.items():
            if key in ("k", "l", "t", "el"):
                continue
            self.any(v)

    def passed(self, n, args):
        """callables handed to a library function run now, or later outside the present context"""
        if n.get("u") in self.L.db.fns:
            return
        nm = n.get("n") or (n.get("fq") or "").split("::")[-1]
        if nm in ("bind", "move", "forward", "ref", "cref", "function", "operator="):
            return
        for a in args:
            for c in self.L.targets(a, self.f):
                lam, g = self.L.of_callable(c)
                if g is None:
                    continue
                if nm in LATER or nm.startswith("~"):
                    self.L.roots_later.setdefault(c, (self.f["q"], n.get("l")))
                else:
                    self.callee(g, lam, n.get("l"), "same" if c[0] == "lam" and self.L.lam[c[1]][1] is self.f else "this" if c[0] == "lam" else "other")

    def call(self, n):
        args = n.get("args", [])
        recv = n.get("recv")
        for a in args:
            self.expr(a)
        if recv:
            self.expr(recv)
        nm, fq = n.get("n"), strip_targs(n.get("fq") or "")
        # explicit operations of guards and mutexes
        if recv is not None and nm in ("lock", "unlock", "try_lock", "lock_shared", "unlock_shared", "try_lock_shared", "try_lock_for", "try_lock_until", "release"):
            if recv.get("k") == "ref" and recv.get("id") in self.guards:
                locks, mode = self.guards[recv["id"]]
                if nm in ("unlock", "release"):
                    self.held = tuple(x for x in self.held if x[1] != recv["id"])
                else:
                    for l in locks:
                        if (l, recv["id"]) not in [(x[0], x[1]) for x in self.held]:
                            self.acquire(l, "try" if nm == "try_lock" else "lock", recv["id"], n.get("l"))
                return
            l = self.L.lock_of(recv, self.f) if "mutex" in (recv.get("t") or n.get("rt") or "") else None
            if l:
                if nm.startswith("unlock"):
                    self.held = tuple(x for x in self.held if x[0] != l)
                else:
                    self.acquire(l, "try" if nm == "try_lock" or nm == "try_lock_shared" else "lock", ("direct", l), n.get("l"))
                return
        if nm == "lock" and fq == "std::lock":
            before, add = self.held, ()
            for a in args:
                l = None
                if a.get("k") == "ref" and a.get("id") in self.guards:
                    for l in self.guards[a["id"]][0]:
                        self.held = before
                        self.acquire(l, "lock", a["id"], n.get("l"))
                        add += self.held[len(before):]
                else:
                    l = self.L.lock_of(a, self.f)
                    if l:
                        self.held = before
                        self.acquire(l, "lock", ("direct", l), n.get("l"))
                        add += self.held[len(before):]
            self.held = before + add
            return
        if n.get("op") == "()" and args:
            ts = self.L.targets(args[0], self.f)
            for c in ts:
                lam, g = self.L.of_callable(c)
                if g is not None:
                    self.callee(g, lam, n.get("l"), "same" if c[0] == "lam" and self.L.lam[c[1]][1] is self.f else "this" if c[0] == "lam" else "other")
            if not ts and n.get("u") in self.L.db.fns:
                self.callee(self.L.db.fns[n["u"]], None, n.get("l"), "other")
            elif not ts:
                self.L.unresolved.add((self.f["q"], n.get("l")))
            return
        g = self.L.db.fns.get(n.get("u"))
        rt = self.L.inst(recv) if recv else "other"
        gs = [g] if g is not None else []
        if n.get("virt"):
            gs += self.L.db.overriders.get(n.get("u"), [])
        for x in gs:
            self.callee(x, None, n.get("l"), rt)
        if not gs:
            if nm in WAITS and not (nm == "lock" and recv is None) and not (nm == "lock" and "weak_ptr" in (n.get("rt") or n.get("cls") or "")):
                self.emit("wait", nm + (" of " + base_name(n.get("rt") or n.get("cls")) if recv else ""), n.get("l"))
            self.passed(n, args)
