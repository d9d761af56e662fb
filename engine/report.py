"""Obligation book-keeping, evidence files, known findings, exit status."""
import json
import os
import sys
import time
import traceback

from . import db as DBM

VERIF = DBM.VERIF
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


def known():
    """{property: {key: text}} of recorded (not repaired) findings"""
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith("finding:"):
                parts = ln.split(None, 3)
                kv = dict(p.split("=", 1) for p in parts[1:3])
                out.setdefault(kv["property"], {})[kv["key"]] = parts[3] if len(parts) > 3 else ""
    return out


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.obls = []
        self.fns = set()
        self.calls = 0
        self.paths = 0
        self.undec = []
        self.rules = []
        self.assume = []
        self._db = None
        self.violations = []

    @property
    def db(self):
        if self._db is None:
            self._db = DBM.load()
        return self._db

    def rule(self, text):
        self.rules.append(text)

    def assumption(self, text):
        self.assume.append(text)

    def saw(self, *fns):
        for f in fns:
            self.fns.add(f["q"] if isinstance(f, dict) else f)

    def saw_interp(self, I, outs=()):
        for u in I.visited:
            f = self.db.fns.get(u)
            if f:
                self.fns.add(DBM.strip_targs(f["q"]))
        self.calls += I.ncalls
        self.paths += len(outs)

    def ok(self, name, where=""):
        self.obls.append((name, True, where))

    def bad(self, name, where, detail, key=None):
        """a violated obligation; key identifies the construct (no line numbers)"""
        self.obls.append((name, False, where))
        self.violations.append({"obligation": name, "where": where, "detail": detail, "key": (key or name).replace(" ", "_")})

    def check(self, cond, name, where, detail="", key=None):
        if cond:
            self.ok(name, where)
        else:
            self.bad(name, where, detail, key)
        return bool(cond)

    def section(self, name, f, *a):
        """run one group of obligations; an analysis failure leaves them undecided"""
        from .interp import Explosion, in_time
        try:
            in_time()
            return f(*a)
        except DBM.AnchorMissing as e:
            self.undecided(name, f"anchor not found: {e}")
        except Explosion as e:
            self.undecided(name, f"too many states: {e}")
        except (KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError) as e:
            self.undecided(name, f"analysis error {type(e).__name__}: {e}")
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()

    def pmap(self, tasks):
        """run independent sections [(name, f, args)] on all cores; results are merged in order"""
        import pickle
        n = min(len(tasks), os.cpu_count() or 1)
        if n < 2 or os.environ.get("VERIF_SERIAL"):
            for name, f, a in tasks:
                self.section(name, f, *a)
            return
        self.db
        kids = []
        sys.stdout.flush()
        for k in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    out = []
                    for i in range(k, len(tasks), n):
                        self.obls, self.violations, self.undec, self.fns, self.calls, self.paths = [], [], [], set(), 0, 0
                        name, f, a = tasks[i]
                        self.section(name, f, *a)
                        out.append((i, self.obls, self.violations, self.undec, self.fns, self.calls, self.paths))
                    with os.fdopen(w, "wb") as fh:
                        pickle.dump(out, fh)
                except BaseException:
                    traceback.print_exc()
                    code = 1
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
            os.close(w)
            kids.append((pid, r))
        res, lost = [], False
        for pid, r in kids:
            with os.fdopen(r, "rb") as fh:
                data = fh.read()
            os.waitpid(pid, 0)
            try:
                res += pickle.loads(data)
            except Exception:
                lost = True
        if lost:
            self.undecided("parallel section", "a worker failed")
        for i, o, v, u, f, c, p in sorted(res, key=lambda x: x[0]):
            self.obls += o
            self.violations += v
            self.undec += u
            self.fns |= f
            self.calls += c
            self.paths += p

    def undecided(self, name, why):
        self.undec.append(f"{name}: {why}")

    def finish(self):
        kn = known().get(self.prop, {})
        new, old = [], []
        seen = set()
        for v in self.violations:
            kk = (v["key"], v["where"])
            if kk in seen:
                continue
            seen.add(kk)
            (old if v["key"] in kn else new).append(v)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": " ".join(self.rules) or "static analysis of the current sources",
                "obligations": len(self.obls),
                "obligations_discharged": sum(1 for o in self.obls if o[1]),
                "functions_analysed": len(self.fns),
                "functions": sorted(self.fns)[:200],
                "call_contexts": self.calls,
                "abstract_paths": self.paths,
                "undecided": self.undec[:50],
                "translation_units": len(self._db.tus) if self._db else 0,
                "parse_errors": (self._db.errors[:5] if self._db else []),
                "sample_obligations": sorted({o[0] for o in self.obls})[:120],
            },
            "assumptions": self.assume,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": new,
        }
        if old:
            ev["coverage"]["known_findings"] = old
        os.makedirs(os.path.join(os.environ.get("VERIF_EVID", VERIF), "evidence"), exist_ok=True)
        with open(os.path.join(os.environ.get("VERIF_EVID", VERIF), "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        print(f"{self.prop}: {len(self.obls)} obligations, {len(self.fns)} functions, {self.paths} abstract paths, "
              f"{len(self.undec)} undecided, {ev['wall_s']} s")
        for u in self.undec[:20]:
            print("  undecided:", u)
        for v in old:
            print(f"KNOWN-FINDING: property={self.prop} {v['key']} {v['where']}: {v['detail']}")
        if new:
            rp = os.path.join(os.environ.get("VERIF_EVID", VERIF), "evidence", f"replay-{self.prop}.json")
            with open(rp, "w") as fh:
                json.dump(new, fh, indent=1)
            for v in new[:40]:
                print(f"  {v['where']}: {v['obligation']}: {v['detail']}  [key={v['key']}]")
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        return 0


def where(fn, line=None):
    return f"{fn['file']}:{line or fn['l']} ({DBM.strip_targs(fn['q'])})"


def main(prop, run, tier):
    from . import interp
    import time
    interp.DEADLINE[0] = time.time() + (540 if tier == "quick" else 780)
    ctx = Ctx(prop, tier)
    try:
        run(ctx)
    except DBM.AnchorMissing as e:
        print(f"{prop}: anchor not found in the current sources: {e}")
        ctx.undecided("anchor", str(e))
        if not ctx.obls and not ctx.violations:
            traceback.print_exc()
            ctx.finish()
            return 2
    if not ctx.obls:
        ctx.finish()
        print(f"{prop}: nothing could be analysed")
        return 2
    return ctx.finish()
