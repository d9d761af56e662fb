"""Path-enumerating abstract interpretation of the repository's Python sources (from their syntax trees).

Values are constants, containers and objects built by the analysed code, or opaque symbols. Every test of an
opaque value, and every outcome a hook declares, is a decision; the driver enumerates all decision sequences.
"""
import ast
import os
from engine import db as DBM


class Opaque:
    """a value nothing is known of; a thing is known to be an object of its own, neither None nor equal to another"""
    def __init__(self, name, thing=False):
        self.name, self.attrs, self.thing = name, {}, thing

    def __repr__(self):
        return f"<{self.name}>"


class Obj:
    def __init__(self, cls, **attrs):
        self.cls, self.attrs = cls, dict(attrs)

    def __repr__(self):
        return f"<{getattr(self.cls, 'name', self.cls)} {self.attrs}>"


class Cls:
    def __init__(self, name, attrs=None, bases=(), mod=None, node=None):
        self.name, self.attrs, self.bases, self.mod, self.node = name, attrs or {}, bases, mod, node

    def look(self, n):
        if n in self.attrs:
            return self.attrs[n]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.look(n)
                if r is not None:
                    return r
        return None

    def __repr__(self):
        return f"<class {self.name}>"


class Func:
    def __init__(self, node, mod, env, qual, cls=None, bound=None):
        self.node, self.mod, self.env, self.qual, self.cls, self.bound = node, mod, env, qual, cls, bound

    def __repr__(self):
        return f"<function {self.qual}>"


class Builtin:
    def __init__(self, name, owner=None):
        self.name, self.owner = name, owner

    def __repr__(self):
        return f"<builtin {self.name}>"


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree, self.env, self.ready = name, path, tree, {}, set()


class Raise(Exception):
    def __init__(self, typ, val=None, line=0):
        self.typ, self.val, self.line = typ, val, line


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Cont(Exception):
    pass


class Cut(Exception):
    """path beyond the analysed bound"""


class Unknown(Exception):
    """construct outside the analysed subset"""


HIER = {"KeyboardInterrupt": ("BaseException",), "SystemExit": ("BaseException",), "FileNotFoundError": ("OSError", "Exception", "BaseException"),
        "FileExistsError": ("OSError", "Exception", "BaseException"), "IndexError": ("LookupError", "Exception", "BaseException"),
        "KeyError": ("LookupError", "Exception", "BaseException"), "StopIteration": ("Exception", "BaseException")}

SEARCH = ("controller_manager", "ros2controlcli")        # packages of the repository holding Python code
CONST_FUNS = {"len": len, "range": range, "enumerate": enumerate, "zip": zip, "sorted": sorted, "min": min, "max": max, "sum": sum, "abs": abs, "round": round,
              "reversed": reversed, "int": int, "float": float, "ord": ord, "chr": chr, "divmod": divmod}


def srv_consts(name):
    """constants of the request part of a service of the repository"""
    p = os.path.join(DBM.REPO, "controller_manager_msgs", "srv", name + ".srv")
    if not os.path.exists(p):
        return None, None, None
    req, res = open(p).read().split("---")[:2]
    consts, fields, rf = {}, [], []
    for part, out in ((req, fields), (res, rf)):
        for ln in part.splitlines():
            ln = ln.split("#")[0].strip()
            if not ln:
                continue
            if "=" in ln.split(" ", 1)[1]:
                k, v = ln.split(" ", 1)[1].split("=")
                if part is req:
                    consts[k.strip()] = int(v)
            else:
                out.append(ln.split()[1])
    return consts, fields, rf


class Py:
    LOOP = 12
    DEPTH = 40

    def __init__(self, chooser=None, hook=None):
        self.mods, self.chooser, self.hook = {}, chooser, hook
        self.ev, self.facts, self.n, self.depth = [], {}, 0, 0
        self.visited = set()

    # -- decisions --------------------------------------------------------------------
    def choose(self, n, label=""):
        return self.chooser.pick(n, label) if n > 1 else 0

    def fresh(self, why):
        self.n += 1
        return Opaque(f"{why}#{self.n}")

    # -- modules ----------------------------------------------------------------------
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        top = name.split(".")[0]
        m = None
        if top in SEARCH:
            base = os.path.join(DBM.REPO, top, *name.split("."))
            for p in (base + ".py", os.path.join(base, "__init__.py")):
                if os.path.exists(p):
                    m = Module(name, p, parse(p))
                    break
        self.mods[name] = m
        return m

    def mod_get(self, m, name):
        """value of a module-level name, evaluated on demand"""
        if name in m.env:
            return m.env[name]
        m.env[name] = Opaque(f"{m.name}.{name}")
        for st in self.flat(m.tree.body):
            v = None
            if isinstance(st, ast.FunctionDef) and st.name == name:
                v = Func(st, m, None, f"{m.name}.{name}")
            elif isinstance(st, ast.ClassDef) and st.name == name:
                v = self.make_class(st, m)
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    if (a.asname or a.name) == name:
                        v = self.import_from(m, st, a.name)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if (a.asname or a.name.split(".")[0]) == name:
                        v = self.import_mod(a.name if a.asname else a.name.split(".")[0])
            elif isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in st.targets):
                v = self.ev_(st.value, m, {})
            if v is not None:
                m.env[name] = v
                return v
        if hasattr(__builtins__, name) or (isinstance(__builtins__, dict) and name in __builtins__):
            m.env[name] = Builtin(name)
        return m.env[name]

    def flat(self, body):
        for st in body:
            yield st
            if isinstance(st, ast.Try):
                yield from self.flat(st.body)
            elif isinstance(st, ast.If):
                yield from self.flat(st.body)
                yield from self.flat(st.orelse)

    def import_mod(self, name):
        return self.module(name) or Opaque(name)

    def import_from(self, m, st, name):
        src = st.module or ""
        if st.level:
            pk = m.name.split(".")
            if not m.path.endswith("__init__.py"):
                pk = pk[:-1]
            pk = pk[:len(pk) - (st.level - 1)]
            src = ".".join(pk + ([src] if src else []))
        if src == "controller_manager_msgs.srv":
            return self.srv(name)
        t = self.module(src)
        if t is not None:
            sub = self.module(src + "." + name)
            v = self.mod_get(t, name)
            return sub if sub is not None and isinstance(v, Opaque) else v
        return Opaque(f"{src}.{name}")

    def srv(self, name):
        k = "srv:" + name
        if k not in self.mods:
            consts, fields, _ = srv_consts(name)
            req = Cls(name + ".Request", dict(consts or {}))
            req.fields = fields
            self.mods[k] = Cls(name, {"Request": req, "Response": Cls(name + ".Response")})
        return self.mods[k]

    def make_class(self, st, m, env=None):
        c = Cls(st.name, {}, tuple(self.ev_(b, m, env or {}) for b in st.bases), m, st)
        for x in st.body:
            if isinstance(x, ast.FunctionDef):
                c.attrs[x.name] = Func(x, m, None, f"{m.name}.{st.name}.{x.name}", cls=c)
            elif isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name):
                try:
                    c.attrs[x.targets[0].id] = self.ev_(x.value, m, dict(c.attrs))
                except (Unknown, Raise):
                    c.attrs[x.targets[0].id] = Opaque(f"{st.name}.{x.targets[0].id}")
        return c

    # -- truth and comparison -----------------------------------------------------------
    def opaque(self, v):
        return isinstance(v, Opaque)

    def deep(self, v):
        """contains an opaque value"""
        if isinstance(v, (list, tuple, set)):
            return any(self.deep(x) for x in v)
        if isinstance(v, dict):
            return any(self.deep(x) for x in v.values())
        return isinstance(v, Opaque)

    def truth(self, v):
        if isinstance(v, Opaque):
            if v.thing:
                return True
            k = ("truth", id(v))
            if k not in self.facts:
                self.facts[k] = (self.choose(2, f"bool({v.name})") == 0, v)
            return self.facts[k][0]
        if isinstance(v, (Obj, Cls, Func, Builtin, Module)):
            return True
        return bool(v)

    def equal(self, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a is b:
                return True
            if getattr(a, "thing", False) or getattr(b, "thing", False):
                return False
            if not isinstance(a, Opaque):
                a, b = b, a
            k = ("eq", id(a), id(b) if isinstance(b, (Opaque, Obj)) else repr(b))
            if not isinstance(b, (Opaque, Obj)):
                known = self.facts.get(("is", id(a)))
                if known is not None:
                    return known[0] == repr(b)
            if k not in self.facts:
                self.facts[k] = (self.choose(2, f"{a.name} == {b!r}") == 0, a, b)
                if self.facts[k][0] and not isinstance(b, (Opaque, Obj)):
                    self.facts[("is", id(a))] = (repr(b), a)
            return self.facts[k][0]
        if isinstance(a, Obj) and isinstance(b, Obj) and a is not b and a.cls is b.cls:
            return set(a.attrs) == set(b.attrs) and all(self.equal(a.attrs[k], b.attrs[k]) for k in a.attrs)
        if isinstance(a, (list, tuple)) and type(a) is type(b) and (self.deep(a) or self.deep(b)):
            return len(a) == len(b) and all(self.equal(x, y) for x, y in zip(a, b))
        return a is b or (not isinstance(a, (Obj, Cls, Func)) and a == b)

    # -- expressions ------------------------------------------------------------------
    def ev_(self, n, m, env):
        f = getattr(self, "x_" + type(n).__name__, None)
        if f is None:
            raise Unknown(f"{type(n).__name__} at {m.path}:{getattr(n, 'lineno', 0)}")
        return f(n, m, env)

    def x_Constant(self, n, m, env):
        return n.value

    def x_Name(self, n, m, env):
        e = env
        while e is not None:
            if n.id in e:
                return e[n.id]
            e = e.get("\0up")
        return self.mod_get(m, n.id)

    def x_JoinedStr(self, n, m, env):
        out = []
        for p in n.values:
            v = self.ev_(p.value if isinstance(p, ast.FormattedValue) else p, m, env)
            out.append(v)
        return self.text(out)

    def text(self, parts):
        if all(isinstance(p, (str, int, float, bool)) or p is None for p in parts):
            return "".join(str(p) for p in parts)
        if any(isinstance(p, (Opaque, Obj)) or self.deep(p) for p in parts):
            return Opaque("text(" + ",".join(p if isinstance(p, str) else repr(p)[:40] for p in parts) + ")")
        return "".join(str(p) for p in parts)

    def x_List(self, n, m, env):
        return list(self.seq(n.elts, m, env))

    def x_Tuple(self, n, m, env):
        return tuple(self.seq(n.elts, m, env))

    def x_Set(self, n, m, env):
        return set(self.seq(n.elts, m, env))

    def seq(self, elts, m, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out += self.items(self.ev_(e.value, m, env))
            else:
                out.append(self.ev_(e, m, env))
        return out

    def x_Dict(self, n, m, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev_(v, m, env))
            else:
                d[self.ev_(k, m, env)] = self.ev_(v, m, env)
        return d

    def x_BoolOp(self, n, m, env):
        v = None
        for x in n.values:
            v = self.ev_(x, m, env)
            if self.truth(v) != isinstance(n.op, ast.And):
                return v
        return v

    def x_UnaryOp(self, n, m, env):
        v = self.ev_(n.operand, m, env)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, Opaque):
            return self.fresh("unary")
        return -v if isinstance(n.op, ast.USub) else +v if isinstance(n.op, ast.UAdd) else ~v

    OPS = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.Div: lambda a, b: a / b,
           ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b, ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b, ast.Pow: lambda a, b: a ** b}

    def x_BinOp(self, n, m, env):
        return self.binop(n.op, self.ev_(n.left, m, env), self.ev_(n.right, m, env), n)

    def binop(self, op, a, b, n):
        if isinstance(a, (Opaque, Obj)) or isinstance(b, (Opaque, Obj)):
            return self.text([a, b]) if isinstance(op, ast.Add) else self.fresh("arith")
        if type(op) not in self.OPS:
            raise Unknown(f"operator {type(op).__name__}")
        try:
            return self.OPS[type(op)](a, b)
        except TypeError:
            raise Raise("TypeError", None, n.lineno)
        except ZeroDivisionError:
            raise Raise("ZeroDivisionError", None, n.lineno)

    def x_IfExp(self, n, m, env):
        return self.ev_(n.body if self.truth(self.ev_(n.test, m, env)) else n.orelse, m, env)

    def x_Compare(self, n, m, env):
        a = self.ev_(n.left, m, env)
        for op, r in zip(n.ops, n.comparators):
            b = self.ev_(r, m, env)
            if not self.compare(op, a, b):
                return False
            a = b
        return True

    def compare(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            return self.equal(a, b) == isinstance(op, ast.Eq)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = a is b if not (isinstance(a, Opaque) or isinstance(b, Opaque)) else (a is b or (self.equal(a, b) if (a is None or b is None or isinstance(a, bool) or isinstance(b, bool)) else False))
            return r == isinstance(op, ast.Is)
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, Opaque) or (isinstance(b, str) and not isinstance(a, str)):
                k = ("in", id(a) if isinstance(a, (Opaque, Obj)) else repr(a), id(b))
                if k not in self.facts:
                    self.facts[k] = (self.choose(2, f"{a!r} in {b!r}") == 0, a, b)
                r = self.facts[k][0]
            elif isinstance(b, str):
                r = a in b
            else:
                r = any(self.equal(a, x) for x in self.items(b))
            return r == isinstance(op, ast.In)
        if isinstance(a, (Opaque, Obj)) or isinstance(b, (Opaque, Obj)):
            return self.choose(2, f"{a!r} ? {b!r}") == 0
        try:
            return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
        except TypeError:
            raise Raise("TypeError")

    def x_Attribute(self, n, m, env):
        return self.attr(self.ev_(n.value, m, env), n.attr, n)

    def attr(self, o, name, n=None):
        if isinstance(o, Module):
            sub = self.module(o.name + "." + name)
            v = self.mod_get(o, name)
            return sub if sub is not None and isinstance(v, Opaque) else v
        if isinstance(o, Obj):
            if name in o.attrs:
                return o.attrs[name]
            if isinstance(o.cls, Cls):
                v = o.cls.look(name)
                if isinstance(v, Func):
                    return Func(v.node, v.mod, v.env, v.qual, v.cls, bound=o)
                if v is not None:
                    return v
            o.attrs[name] = Opaque(f"{getattr(o.cls, 'name', o.cls)}.{name}")
            return o.attrs[name]
        if isinstance(o, Cls):
            v = o.look(name)
            if v is not None:
                return v
            return Opaque(f"{o.name}.{name}")
        if isinstance(o, Opaque):
            if name not in o.attrs:
                o.attrs[name] = Opaque(f"{o.name}.{name}")
            return o.attrs[name]
        if isinstance(o, (str, list, dict, tuple, set, int, float, bool, bytes)):
            return Builtin(name, (o,))
        if o is None:
            raise Raise("AttributeError", f"None.{name}", getattr(n, "lineno", 0))
        if isinstance(o, Func):
            return Opaque(f"{o.qual}.{name}")
        return Opaque(f"{o!r}.{name}")

    def x_Subscript(self, n, m, env):
        o = self.ev_(n.value, m, env)
        if isinstance(n.slice, ast.Slice):
            lo = self.ev_(n.slice.lower, m, env) if n.slice.lower else None
            hi = self.ev_(n.slice.upper, m, env) if n.slice.upper else None
            if isinstance(o, (str, list, tuple)) and not self.opaque(lo) and not self.opaque(hi):
                return o[lo:hi]
            return self.fresh("slice")
        i = self.ev_(n.slice, m, env)
        return self.getitem(o, i, n)

    def getitem(self, o, i, n):
        if isinstance(o, Opaque) or isinstance(i, Opaque):
            if isinstance(o, Opaque) and not isinstance(i, (Opaque, list, dict)):
                return self.attr(o, f"[{i!r}]")
            return self.fresh("item")
        try:
            return o[i]
        except IndexError:
            raise Raise("IndexError", None, n.lineno)
        except KeyError:
            raise Raise("KeyError", None, n.lineno)
        except TypeError:
            raise Raise("TypeError", None, n.lineno)

    def x_Lambda(self, n, m, env):
        return Func(n, m, env, f"{m.name}.<lambda>")

    def x_NamedExpr(self, n, m, env):
        v = self.ev_(n.value, m, env)
        self.store(n.target, v, m, env)
        return v

    def x_Starred(self, n, m, env):
        raise Unknown("starred")

    def comp(self, n, m, env, gen, emit):
        def go(k, e):
            if k == len(n.generators):
                emit(e)
                return
            g = n.generators[k]
            for x in self.items(self.ev_(g.iter, m, e)):
                e2 = {"\0up": e}
                self.store(g.target, x, m, e2, local=True)
                if all(self.truth(self.ev_(c, m, e2)) for c in g.ifs):
                    go(k + 1, e2)
        go(0, env)

    def x_ListComp(self, n, m, env):
        out = []
        self.comp(n, m, env, None, lambda e: out.append(self.ev_(n.elt, m, e)))
        return out

    def x_GeneratorExp(self, n, m, env):
        return ("\0gen", n, m, env)

    def x_SetComp(self, n, m, env):
        out = set()
        self.comp(n, m, env, None, lambda e: out.add(self.ev_(n.elt, m, e)))
        return out

    def x_DictComp(self, n, m, env):
        out = {}
        self.comp(n, m, env, None, lambda e: out.__setitem__(self.ev_(n.key, m, e), self.ev_(n.value, m, e)))
        return out

    def gen(self, g):
        """elements of a generator expression, one at a time"""
        _, n, m, env = g

        def go(k, e):
            if k == len(n.generators):
                yield self.ev_(n.elt, m, e)
                return
            q = n.generators[k]
            for x in self.items(self.ev_(q.iter, m, e)):
                e2 = {"\0up": e}
                self.store(q.target, x, m, e2, local=True)
                if all(self.truth(self.ev_(c, m, e2)) for c in q.ifs):
                    yield from go(k + 1, e2)
        return go(0, env)

    def items(self, v):
        if isinstance(v, tuple) and len(v) == 4 and v[0] == "\0gen":
            return list(self.gen(v))
        if isinstance(v, (list, tuple, set, str, range)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, Opaque):
            k = ("items", id(v))
            if k not in self.facts:
                self.facts[k] = ([Opaque(f"{v.name}[{i}]") for i in range(self.choose(2, f"len({v.name})"))], v)
            return list(self.facts[k][0])
        try:
            return list(v)
        except TypeError:
            raise Raise("TypeError")

    # -- calls ------------------------------------------------------------------------
    def x_Call(self, n, m, env):
        f = self.ev_(n.func, m, env)
        args = self.seq(n.args, m, env)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev_(k.value, m, env)
                if not isinstance(d, dict):
                    raise Unknown("**")
                kw.update(d)
            else:
                kw[k.arg] = self.ev_(k.value, m, env)
        return self.call(f, args, kw, n)

    def name_of(self, f):
        if isinstance(f, Func):
            return f.qual
        if isinstance(f, (Opaque, Cls)):
            return f.name
        if isinstance(f, Builtin):
            return f.name if f.owner is None else "." + f.name
        return repr(f)

    def call(self, f, args, kw, n):
        if self.hook is not None:
            r = self.hook(self, self.name_of(f), f, args, kw, n)
            if r is not NotImplemented:
                return r
        if isinstance(f, Func):
            return self.apply(f, args, kw)
        if isinstance(f, Cls):
            return self.instance(f, args, kw, n)
        if isinstance(f, Builtin):
            return self.builtin(f, args, kw, n)
        if isinstance(f, Opaque):
            if f.name in ("os.getenv", "os.environ.get"):
                return args[1] if len(args) > 1 else None
            if f.name.endswith(".isatty"):
                return False
            if "logger" in f.name and f.name.split(".")[-1].split("#")[0] in ("debug", "info", "warn", "warning", "error", "fatal"):
                return None
            return self.fresh(f"{f.name}()")
        raise Raise("TypeError", f"call of {f!r}", getattr(n, "lineno", 0))

    def instance(self, c, args, kw, n):
        new = c.look("__new__")
        if isinstance(new, Func):
            return self.apply(Func(new.node, new.mod, new.env, new.qual, c, bound=c), args, kw)
        o = Obj(c)
        for b in (c,) + tuple(c.bases):
            if isinstance(b, (Builtin, Opaque)) or c.name.endswith(("Error", "Exception")):
                o.attrs.setdefault("args", tuple(args))
        init = c.look("__init__")
        if isinstance(init, Func):
            self.apply(Func(init.node, init.mod, init.env, init.qual, c, bound=o), args, kw)
        for k, v in kw.items():
            if not isinstance(init, Func):
                o.attrs[k] = v
        return o

    def bind(self, f, args, kw):
        a = f.node.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        env = {"\0up": f.env}
        vals = ([f.bound] if f.bound is not None else []) + list(args)
        for p, v in zip(ps, vals):
            env[p] = v
        if len(vals) > len(ps):
            if not a.vararg:
                raise Raise("TypeError", f"too many arguments for {f.qual}")
            env[a.vararg.arg] = tuple(vals[len(ps):])
        elif a.vararg:
            env[a.vararg.arg] = ()
        ko = [p.arg for p in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in ps or k in ko:
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise Raise("TypeError", f"{f.qual}: unexpected argument {k}")
        if a.kwarg:
            env[a.kwarg.arg] = extra
        for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(ko, a.kw_defaults) if d is not None]:
            if p not in env:
                env[p] = self.ev_(d, f.mod, f.env or {})
        for p in ps + ko:
            if p not in env:
                raise Raise("TypeError", f"{f.qual}: missing argument {p}")
        return env

    def apply(self, f, args, kw):
        env = self.bind(f, args, kw)
        self.visited.add((f.mod.path, f.qual))
        if isinstance(f.node, ast.Lambda):
            return self.ev_(f.node.body, f.mod, env)
        self.depth += 1
        if self.depth > self.DEPTH:
            raise Cut("recursion")
        try:
            self.body(f.node.body, f.mod, env)
        except _Ret as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    def builtin(self, f, args, kw, n):
        name = f.name
        if f.owner is not None:
            return self.method(f.owner[0], name, args, kw, n)
        if name == "print":
            self.ev.append(("print",))
            return None
        if name in ("any", "all"):
            src = args[0]
            for x in (self.gen(src) if isinstance(src, tuple) and len(src) == 4 and src[0] == "\0gen" else self.items(src)):
                if self.truth(x) == (name == "any"):
                    return name == "any"
            return name != "any"
        if name == "next":
            src = args[0]
            for x in (self.gen(src) if isinstance(src, tuple) and len(src) == 4 and src[0] == "\0gen" else self.items(src)):
                return x
            if len(args) > 1:
                return args[1]
            raise Raise("StopIteration")
        if name == "bool":
            return self.truth(args[0]) if args else False
        if name == "str":
            return self.text([args[0]]) if args else ""
        if name == "repr":
            return self.text([args[0]])
        if name in ("list", "tuple", "set"):
            it = self.items(args[0]) if args else []
            return list(it) if name == "list" else tuple(it) if name == "tuple" else set(it)
        if name == "dict":
            return dict(args[0] if args else {}, **kw)
        if name == "isinstance":
            v, t = args
            ts = t if isinstance(t, tuple) else (t,)
            if isinstance(v, Opaque):
                return self.choose(2, "isinstance") == 0
            if isinstance(v, Obj):
                return any(isinstance(x, Cls) and self.subclass(v.cls, x) for x in ts)
            real = {"str": str, "int": int, "float": float, "list": list, "dict": dict, "tuple": tuple, "bool": bool, "set": set}
            return any(isinstance(x, Builtin) and x.name in real and isinstance(v, real[x.name]) for x in ts)
        if name == "getattr":
            return self.attr(args[0], args[1])
        if name == "setattr":
            args[0].attrs[args[1]] = args[2]
            return None
        if name == "hasattr":
            return isinstance(args[0], Obj) and (args[1] in args[0].attrs or (isinstance(args[0].cls, Cls) and args[0].cls.look(args[1]) is not None))
        if name == "super":
            return Opaque("super")
        if name == "map":
            return [self.call(args[0], [x], {}, n) for x in self.items(args[1])]
        if name == "filter":
            return [x for x in self.items(args[1]) if self.truth(self.call(args[0], [x], {}, n))]
        if name == "object":
            return Obj("object")
        if name == "type":
            return args[0].cls if isinstance(args[0], Obj) else self.fresh("type")
        if name == "exit" or name == "quit":
            raise Raise("SystemExit", args[0] if args else None)
        if name == "open":
            return Opaque("file")
        if name.endswith(("Error", "Exception", "Interrupt", "Exit", "Warning")) or name in ("Exception", "BaseException", "StopIteration"):
            return Obj(Cls(name, {}, ()), args=tuple(args))
        if name in ("sorted", "min", "max") and "key" in kw and len(args) == 1:
            xs = list(self.items(args[0]))
            ks = [self.call(kw["key"], [x], {}, n) for x in xs]
            if any(self.deep(k) or isinstance(k, (Obj, Opaque)) for k in ks):
                return xs if name == "sorted" else self.fresh(f"{name}()")
            try:
                o = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(kw.get("reverse")) if name == "sorted" else name == "max")
            except TypeError:
                raise Raise("TypeError", None, n.lineno)
            return [xs[i] for i in o] if name == "sorted" else xs[o[0]] if xs else kw.get("default")
        if name in CONST_FUNS:
            if any(self.deep(a) or isinstance(a, Obj) for a in args) and name not in ("len", "enumerate", "zip", "reversed"):
                return self.fresh(f"{name}()")
            if name in ("len", "enumerate", "zip", "reversed"):
                args = [self.items(a) if not isinstance(a, (int, float)) else a for a in args]
            try:
                r = CONST_FUNS[name](*args, **kw)
                return r if isinstance(r, (int, float, str, list, range)) else list(r)
            except (TypeError, ValueError) as e:
                raise Raise(type(e).__name__, None, n.lineno)
        return self.fresh(f"{name}()")

    def subclass(self, c, b):
        if c is b:
            return True
        return isinstance(c, Cls) and any(self.subclass(x, b) for x in c.bases)

    def method(self, o, name, args, kw, n):
        if isinstance(o, list):
            if name == "append":
                o.append(args[0])
                return None
            if name == "extend":
                o.extend(self.items(args[0]))
                return None
            if name in ("clear", "reverse", "insert", "pop", "copy", "remove", "index", "count"):
                if name in ("remove", "index", "count") and (self.deep(o) or self.deep(args)):
                    raise Unknown(f"list.{name}")
                try:
                    return getattr(o, name)(*args)
                except IndexError:
                    raise Raise("IndexError", None, n.lineno)
                except ValueError:
                    raise Raise("ValueError", None, n.lineno)
            if name == "sort":
                if self.deep(o) or kw:
                    raise Unknown("sort")
                o.sort()
                return None
        if isinstance(o, dict):
            if name == "get":
                return o.get(args[0], args[1] if len(args) > 1 else None)
            if name in ("items", "keys", "values"):
                return list(getattr(o, name)())
            if name in ("update", "setdefault", "pop", "clear", "copy"):
                return getattr(o, name)(*args, **kw)
        if isinstance(o, set) and name in ("add", "discard", "update", "remove", "clear", "copy"):
            return getattr(o, name)(*args)
        if isinstance(o, str):
            if name == "join":
                xs = self.items(args[0])
                return self.text([y for i, x in enumerate(xs) for y in ((o, x) if i else (x,))])
            if any(self.deep(a) or isinstance(a, Obj) for a in list(args) + list(kw.values())):
                return self.choose(2, f"str.{name}") == 0 if name.startswith(("startswith", "endswith", "is")) else self.fresh(f"str.{name}")
            try:
                return getattr(o, name)(*args, **kw)
            except (TypeError, ValueError, AttributeError) as e:
                raise Raise(type(e).__name__, None, n.lineno)
        if hasattr(o, name) and not self.deep(o) and not self.deep(args):
            return getattr(o, name)(*args, **kw)
        raise Unknown(f"{type(o).__name__}.{name}")

    # -- statements ---------------------------------------------------------------------
    def body(self, sts, m, env):
        for st in sts:
            self.stmt(st, m, env)

    def stmt(self, n, m, env):
        f = getattr(self, "s_" + type(n).__name__, None)
        if f is None:
            raise Unknown(f"{type(n).__name__} at {m.path}:{n.lineno}")
        return f(n, m, env)

    def s_Expr(self, n, m, env):
        self.ev_(n.value, m, env)

    def s_Pass(self, n, m, env):
        pass

    def s_Return(self, n, m, env):
        raise _Ret(self.ev_(n.value, m, env) if n.value else None)

    def s_Break(self, n, m, env):
        raise _Break()

    def s_Continue(self, n, m, env):
        raise _Cont()

    def s_If(self, n, m, env):
        self.body(n.body if self.truth(self.ev_(n.test, m, env)) else n.orelse, m, env)

    def s_Assign(self, n, m, env):
        v = self.ev_(n.value, m, env)
        for t in n.targets:
            self.store(t, v, m, env)

    def s_AnnAssign(self, n, m, env):
        if n.value:
            self.store(n.target, self.ev_(n.value, m, env), m, env)

    def s_AugAssign(self, n, m, env):
        old = self.ev_(n.target, m, env)
        v = self.ev_(n.value, m, env)
        if isinstance(old, list) and isinstance(n.op, ast.Add):
            old.extend(self.items(v))
        else:
            self.store(n.target, self.binop(n.op, old, v, n), m, env)

    def store(self, t, v, m, env, local=False):
        if isinstance(t, ast.Name):
            e = env
            if "\0nonlocal" in env and t.id in env["\0nonlocal"]:
                e = env["\0up"]
                while e is not None and t.id not in e:
                    e = e.get("\0up")
                if e is None:
                    m.env[t.id] = v
                    return
            e[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev_(t.value, m, env)
            if isinstance(o, (Obj, Opaque, Cls)):
                o.attrs[t.attr] = v
                self.on_store(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev_(t.value, m, env)
            i = self.ev_(t.slice, m, env)
            if isinstance(o, (list, dict)):
                try:
                    o[i] = v
                except (IndexError, TypeError) as e:
                    raise Raise(type(e).__name__, None, t.lineno)
            elif isinstance(o, Opaque):
                o.attrs[f"[{i!r}]"] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.items(v) if not isinstance(v, Opaque) else [self.attr(v, f"[{i}]") for i in range(len(t.elts))]
            if len(vs) != len(t.elts):
                raise Raise("ValueError", None, t.lineno)
            for a, b in zip(t.elts, vs):
                self.store(a, b, m, env)
        else:
            raise Unknown(f"store to {type(t).__name__}")

    def on_store(self, o, name, v):
        pass

    def s_FunctionDef(self, n, m, env):
        env[n.name] = Func(n, m, env, f"{m.name}.{n.name}")

    def s_ClassDef(self, n, m, env):
        env[n.name] = self.make_class(n, m, env)

    def s_Import(self, n, m, env):
        for a in n.names:
            env[a.asname or a.name.split(".")[0]] = self.import_mod(a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, n, m, env):
        for a in n.names:
            env[a.asname or a.name] = self.import_from(m, n, a.name)

    def s_Global(self, n, m, env):
        env.setdefault("\0nonlocal", set()).update(n.names)

    s_Nonlocal = s_Global

    def s_Delete(self, n, m, env):
        for t in n.targets:
            if isinstance(t, ast.Name):
                env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, i = self.ev_(t.value, m, env), self.ev_(t.slice, m, env)
                if isinstance(o, (list, dict)):
                    del o[i]

    def s_Assert(self, n, m, env):
        if not self.truth(self.ev_(n.test, m, env)):
            raise Raise("AssertionError", None, n.lineno)

    def s_Raise(self, n, m, env):
        if n.exc is None:
            cur = env.get("\0exc") or (env.get("\0up") or {}).get("\0exc")
            if cur is None:
                raise Raise("RuntimeError", None, n.lineno)
            raise Raise(cur.typ, cur.val, n.lineno)
        v = self.ev_(n.exc, m, env)
        if isinstance(v, (Cls, Builtin)):
            v = self.call(v, [], {}, n)
        raise Raise(v.cls.name if isinstance(v, Obj) and isinstance(v.cls, Cls) else v.name.split("(")[0].split(".")[-1] if isinstance(v, Opaque) else "Exception", v, n.lineno)

    def s_While(self, n, m, env):
        k = 0
        while self.truth(self.ev_(n.test, m, env)):
            k += 1
            if k > self.LOOP:
                raise Cut(f"loop at {m.path}:{n.lineno}")
            try:
                self.body(n.body, m, env)
            except _Break:
                return
            except _Cont:
                continue
        self.body(n.orelse, m, env)

    def s_For(self, n, m, env):
        for x in self.items(self.ev_(n.iter, m, env)):
            self.store(n.target, x, m, env)
            try:
                self.body(n.body, m, env)
            except _Break:
                return
            except _Cont:
                continue
        self.body(n.orelse, m, env)

    def s_With(self, n, m, env):
        for it in n.items:
            v = self.ev_(it.context_expr, m, env)
            if isinstance(v, Obj) and isinstance(v.cls, Cls) and isinstance(v.cls.look("__enter__"), Func):
                v = self.call(self.attr(v, "__enter__"), [], {}, n)
            self.on_with(v)
            if it.optional_vars is not None:
                self.store(it.optional_vars, v, m, env)
        try:
            self.body(n.body, m, env)
        finally:
            self.on_with_end(v)

    def on_with(self, v):
        pass

    def on_with_end(self, v):
        pass

    def handles(self, exc, t):
        """does an except clause for class t (value) catch the raised exception?"""
        names = [self.name_of(x).split(".")[-1] for x in (t if isinstance(t, tuple) else (t,))]
        mine = {exc.typ.split(".")[-1]} | set(HIER.get(exc.typ, ("Exception", "BaseException")))
        if isinstance(exc.val, Obj) and isinstance(exc.val.cls, Cls):
            st = [exc.val.cls]
            while st:
                c = st.pop()
                if isinstance(c, Cls):
                    mine.add(c.name)
                    st += list(c.bases)
        return any(x in mine for x in names)

    def s_Try(self, n, m, env):
        try:
            try:
                self.body(n.body, m, env)
            except Raise as r:
                for h in n.handlers:
                    if h.type is None or self.handles(r, self.ev_(h.type, m, env)):
                        if h.name:
                            env[h.name] = r.val if r.val is not None else Opaque(r.typ)
                        old = env.get("\0exc")
                        env["\0exc"] = r
                        try:
                            self.body(h.body, m, env)
                        finally:
                            env["\0exc"] = old
                        break
                else:
                    raise
            else:
                self.body(n.orelse, m, env)
        finally:
            if n.finalbody:
                self.body(n.finalbody, m, env)


TREES = {}


def parse(p):
    if p not in TREES:
        TREES[p] = ast.parse(open(p).read(), p)
    return TREES[p]


class Chooser:
    def __init__(self, prefix):
        self.prefix, self.trace = prefix, []

    def pick(self, n, label):
        i = len(self.trace)
        v = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((v, n, label))
        return v


def paths(make, run, limit=20000):
    """[(Py, kind, value)] over all decision sequences; kind: ret, raise, cut, unknown"""
    prefix, out = [], []
    while True:
        ch = Chooser(prefix)
        I = make(ch)
        try:
            out.append((I, "ret", run(I)))
        except Raise as r:
            out.append((I, "raise", r))
        except Cut as e:
            out.append((I, "cut", str(e)))
        except (Unknown, RecursionError) as e:
            out.append((I, "unknown", str(e)))
        I.trace = ch.trace
        t = [(v, n) for v, n, _ in ch.trace]
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return out
        prefix = [v for v, _ in t[:-1]] + [t[-1][0] + 1]
        if len(out) >= limit:
            out.append((I, "unknown", "too many paths"))
            return out
