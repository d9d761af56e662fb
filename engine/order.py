"""Order domain: linear inequalities over Laurent monomials (a polyhedral abstract domain with Fourier-Motzkin
projection), used to close the comparison facts of a path and to compare value terms up to arithmetic."""
from fractions import Fraction
from math import gcd

from . import terms as T


def q(x):
    return Fraction(repr(x)) if isinstance(x, float) else Fraction(x)


def is_inf(t):
    """+1 / -1 / 0"""
    if t[0] == "neg":
        return -is_inf(t[1])
    if t[0] == "inf":
        return 1
    if t[0] == "call" and str(t[1]).endswith("infinity"):
        return 1
    if t[0] == "c" and isinstance(t[1], float) and t[1] in (float("inf"), float("-inf")):
        return 1 if t[1] > 0 else -1
    return 0


def is_nan(t):
    if t[0] in ("nan",) or (t[0] == "call" and str(t[1]).endswith("quiet_NaN")):
        return True
    if t[0] in ("+", "-", "*", "/", "neg", "fabs", "abs"):
        return any(is_nan(x) for x in t[1:] if isinstance(x, tuple))
    return False


def pmul(a, b):
    out = {}
    for m, x in a.items():
        for n, y in b.items():
            d = dict(m)
            for k, e in n:
                d[k] = d.get(k, 0) + e
                if not d[k]:
                    del d[k]
            key = tuple(sorted(d.items(), key=repr))
            out[key] = out.get(key, 0) + x * y
            if not out[key]:
                del out[key]
    return out


def padd(a, b, f=1):
    out = dict(a)
    for m, x in b.items():
        out[m] = out.get(m, 0) + f * x
        if not out[m]:
            del out[m]
    return out


CACHE = {}
SCALED = {}
CONST = {0}
IDS, MONOS = {(): 0}, [()]


def poly(t):
    """{monomial: coefficient}; monomial = sorted tuple of (atom, exponent)"""
    r = CACHE.get(t)
    if r is None:
        r = CACHE[t] = _poly(t)
    return r


def _poly(t):
    if T.is_num(t):
        return {(): q(t[1])} if t[1] else {}
    k = t[0]
    if k == "c" and isinstance(t[1], bool):
        return {(): Fraction(1)} if t[1] else {}
    if k == "+":
        return padd(poly(t[1]), poly(t[2]))
    if k == "-" and len(t) == 3:
        return padd(poly(t[1]), poly(t[2]), -1)
    if k == "neg":
        return {m: -x for m, x in poly(t[1]).items()}
    if k == "*":
        return pmul(poly(t[1]), poly(t[2]))
    if k == "/":
        d = poly(t[2])
        if len(d) == 1:
            (m, x), = d.items()
            return pmul(poly(t[1]), {tuple((a, -e) for a, e in m): 1 / x})
        if d:
            lead = min(d, key=repr)     # normalised denominator: leading coefficient one
            f = d[lead]
            den = tuple(sorted(((m, x / f) for m, x in d.items()), key=repr))
            return pmul(poly(t[1]), {((("den", den), -1),): 1 / f})
        return {((t, 1),): Fraction(1)}
    return {((t, 1),): Fraction(1)}


def same(a, b):
    if a == b:
        return True
    i, j = is_inf(a), is_inf(b)
    if i or j:
        return i == j
    return poly(a) == poly(b)


class Polyhedron:
    """conjunction of p >= 0 / p > 0; pos: atoms known to be positive, nonneg: atoms known to be >= 0"""
    LIMIT = 3000

    def __init__(self, pos=(), nonneg=(), scale=()):
        self.cons = []          # (poly, strict)
        self.pos, self.nonneg, self.scale = set(pos), set(nonneg) | set(pos), tuple(scale)
        self.unknown = False
        self.memo = {}
        self.rowcache = None

    def clone(self):
        p = Polyhedron(self.pos, self.nonneg, self.scale)
        p.cons = list(self.cons)
        p.memo = dict(self.memo)
        p.rowcache = self.rowcache
        return p

    def norm(self, p):
        """multiply by powers of the scale atoms (positive) so that no negative or common exponent is left"""
        for a in self.scale:
            es = [dict(m).get(a, 0) for m in p]
            lo = min(es) if es else 0
            if lo:
                p = pmul(p, {((a, -lo),): Fraction(1)})
        return p

    def add(self, a, b, strict):
        """a < b / a <= b"""
        if is_nan(a) or is_nan(b):
            return
        if is_inf(a) or is_inf(b):
            return
        p = self.norm(padd(poly(b), poly(a), -1))
        self.cons.append((p, strict))
        self.memo = {}

    def facts(self, facts):
        for t, v in facts.items():
            if t[0] == "<":
                self.add(t[1], t[2], True) if v else self.add(t[2], t[1], False)
            elif t[0] == "<=":
                self.add(t[1], t[2], False) if v else self.add(t[2], t[1], True)
            elif t[0] == "==" and v and not (T.isc(t[1]) and isinstance(t[1][1], (str, bool))) and not (T.isc(t[2]) and isinstance(t[2][1], (str, bool))):
                self.add(t[1], t[2], False)
                self.add(t[2], t[1], False)
        return self

    def mono_sign(self, m):
        """(nonneg, strict) knowledge about a monomial"""
        st = True
        for a, e in m:
            if a in self.pos:
                continue
            if e % 2 == 0 and e > 0:
                st = False
                continue
            if e > 0 and (a in self.nonneg or a[0] in ("fabs", "abs")):
                st = False
                continue
            return None
        return st

    def intern(self, p):
        """integer row {monomial id: coefficient} (0 is the constant), scaled by a positive factor"""
        d = 1
        for x in p.values():
            d = d * x.denominator // gcd(d, x.denominator)
        row = {}
        g = 0
        for m, x in p.items():
            i = IDS.get(m)
            if i is None:
                i = IDS[m] = len(IDS)
                MONOS.append(m)
            v = int(x * d)
            row[i] = v
            g = gcd(g, v)
        if g > 1:
            row = {i: v // g for i, v in row.items()}
        return row

    def infeasible(self, extra=()):
        base = list(self.cons) + list(extra)
        maxe = {}
        for p, s in base:
            for m in p:
                for a, e in m:
                    if a in self.scale:
                        maxe[a] = max(maxe.get(a, 0), e)
        key = tuple(sorted(maxe.items(), key=repr))
        if self.rowcache is None or self.rowcache[0] != key or self.rowcache[1] != len(self.cons):
            self.rowcache = (key, len(self.cons), [r for p, s in self.cons for r in self.scaled(p, s, maxe)])
        goal = [r for p, s in extra for r in self.scaled(p, s, maxe)]
        cons = self.rowcache[2] + goal
        monos = {i for r, s in cons for i in r if i}
        sign = []
        for i in monos:
            m = MONOS[i]
            sg = self.mono_sign(m)
            if sg is not None:
                sign.append(({i: 1}, sg))
            if len(m) == 1 and m[0][1] == 1 and m[0][0][0] in ("abs", "fabs"):
                x = poly(m[0][0][1])
                sign.append((self.intern(padd({m: Fraction(1)}, x, -1)), False))
                sign.append((self.intern(padd({m: Fraction(1)}, x)), False))
        cons = cons + sign
        if goal:                # only what is connected to the goal can contradict it
            reach = {i for r, s in goal for i in r if i}
            left, used = cons, []
            while True:
                nxt, n = [], len(used)
                for c_ in left:
                    ks = c_[0].keys()
                    if not reach.isdisjoint(ks) or ks <= CONST:
                        used.append(c_)
                        reach.update(ks)
                        reach.discard(0)
                    else:
                        nxt.append(c_)
                left = nxt
                if len(used) == n:
                    break
            cons = used
        return self.fm(cons)

    def scaled(self, p, s, maxe):
        ck = (frozenset(p.items()), s, tuple(maxe.items()))
        out = SCALED.get(ck)
        if out is not None:
            return out
        out = SCALED[ck] = [(self.intern(p), s)]
        for a, e in maxe.items():
            top = max([dict(m).get(a, 0) for m in p] or [0])
            r = p
            for _ in range(e - top):
                r = pmul(r, {((a, 1),): Fraction(1)})
                out.append((self.intern(r), s))
        return out

    def fm(self, cons):
        best = {}

        def put(row, s):
            cst = row.get(0, 0)
            k = tuple(sorted((i, v) for i, v in row.items() if i))
            if not k:
                return cst < 0 or (s and cst <= 0)
            g = 0
            for i, v in k:
                g = gcd(g, v)
            if g > 1:
                k = tuple((i, v // g) for i, v in k)
                cst = Fraction(cst, g)
            o = best.get(k)
            if o is None or cst < o[0] or (cst == o[0] and s and not o[1]):
                best[k] = (cst, s)
            return False
        for r, s in cons:
            if put(r, s):
                return True
        while best:
            occ = {}
            for k in best:
                for i, v in k:
                    o = occ.get(i)
                    if o is None:
                        o = occ[i] = [0, 0]
                    o[v < 0] += 1
            v = min(occ, key=lambda i: (occ[i][0] * occ[i][1] - occ[i][0] - occ[i][1], i))
            lo, hi, rest = [], [], {}
            for k, (cst, s) in best.items():
                for i, x in k:
                    if i == v:
                        (lo if x > 0 else hi).append((dict(k), cst, s, x))
                        break
                else:
                    rest[k] = (cst, s)
            best = rest
            for p, pc, s, x in lo:
                for r, rc, t, y in hi:
                    g = gcd(x, y)
                    a, b = -y // g, x // g
                    row = {i: w * a for i, w in p.items() if i != v}
                    for i, w in r.items():
                        if i != v:
                            z = row.get(i, 0) + w * b
                            if z:
                                row[i] = z
                            else:
                                del row[i]
                    cst = pc * a + rc * b
                    if cst:
                        row[0] = cst
                    if put(row, s or t):
                        return True
            if len(best) > self.LIMIT:
                self.unknown = True
                return False
        return False

    def le(self, a, b, strict=False):
        """True/False/None: a <= b (a < b)"""
        if is_nan(a) or is_nan(b):
            return False
        i, j = is_inf(a), is_inf(b)
        if i or j:
            return (i < j) or (i == j and not strict)
        key = (a, b, strict)
        if key in self.memo:
            return self.memo[key]
        p = self.norm(padd(poly(b), poly(a), -1))
        r = None
        if self.infeasible([({m: -x for m, x in p.items()}, not strict)]):
            r = True
        elif self.infeasible([(p, strict)]):
            r = False
        self.memo[key] = r
        return r

    def equal(self, a, b):
        return same(a, b) or (self.le(a, b) is True and self.le(b, a) is True)

    def consistent(self):
        return not self.infeasible()


class Oracle:
    """branching evaluation of a specification: comparisons are decided by the facts or forked"""

    def __init__(self, base, decisions):
        self.p, self.dec, self.i, self.new = base.clone(), decisions, 0, []

    def lt(self, a, b):
        return self.cmp(a, b, True)

    def le(self, a, b):
        return self.cmp(a, b, False)

    def cmp(self, a, b, strict):
        r = self.p.le(a, b, strict)
        if r is not None:
            return r
        if self.i < len(self.dec):
            r = self.dec[self.i]
        else:
            r = True
            self.new.append(self.dec[:self.i] + tuple([False]))
            self.dec = self.dec + (True,)
        self.i += 1
        if r:
            self.p.add(a, b, strict)
        else:
            self.p.add(b, a, not strict)
        return r

    def min(self, a, b):
        return a if self.le(a, b) else b

    def max(self, a, b):
        return a if self.le(b, a) else b

    def clamp(self, v, lo, hi):
        return lo if self.lt(v, lo) else hi if self.lt(hi, v) else v


def explore(base, spec, limit=400):
    """[(result, oracle)] over all order-consistent evaluations of spec(oracle)"""
    work, out = [()], []
    while work:
        d = work.pop()
        o = Oracle(base, d)
        r = spec(o)
        out.append((r, o))
        work += o.new
        if len(out) > limit:
            break
    return out
