"""Program database: builds the extractor, runs it over /repo's current C++ sources, merges the
type-checked syntax trees of all translation units and offers look-ups (functions, records, call
graph).  Everything is derived from /repo's working tree; results are cached by content hash."""
import fcntl
import glob
import hashlib
import json
import os
import pickle
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

sys.setrecursionlimit(20000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
PKGS = ["hardware_interface", "controller_interface", "controller_manager", "joint_limits",
        "transmission_interface"]
LLVM = "/usr/lib/llvm-18"


def _hash_files(files, extra=b""):
    h = hashlib.sha256(extra)
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def extractor():
    src = os.path.join(VERIF, "extractor", "extract.cpp")
    out = os.path.join(CACHE, "bin", "extract-" + _hash_files([src]))
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".tmp%d" % os.getpid()
    subprocess.run(
        ["clang++", "-O0", "-std=c++17", "-fno-rtti", "-w", "-I" + LLVM + "/include", src, "-o", tmp,
         LLVM + "/lib/libclang-cpp.so.18.1", "-L" + LLVM + "/lib", "-lLLVM-18"], check=True)
    os.rename(tmp, out)
    return out


def repo_sources():
    out = []
    for p in PKGS:
        out += glob.glob(f"{REPO}/{p}/src/**/*.cpp", recursive=True)
    return sorted(f for f in out if "/test" not in f)


def _inputs():
    fs = repo_sources()
    for p in PKGS + ["controller_manager_msgs"]:
        for pat in ("**/*.hpp", "**/*.h", "**/*.yaml", "**/*.msg", "**/*.srv"):
            fs += [f for f in glob.glob(f"{REPO}/{p}/{pat}", recursive=True) if "/test/" not in f]
    for d in ("stubs", "tus", "tools"):
        for r, _, names in os.walk(os.path.join(VERIF, d)):
            if "__pycache__" in r:
                continue
            fs += [os.path.join(r, n) for n in names]
    return sorted(set(fs))


class DB:
    def __init__(self, data):
        self.fns = data["fns"]          # usr -> fn
        self.recs = data["recs"]        # qualified name -> record
        self.enums = data["enums"]
        self.gvars = data["gvars"]
        self.errors = data["errors"]
        self.tus = data["tus"]
        self.byq = {}
        for f in self.fns.values():
            self.byq.setdefault(f["q"], []).append(f)
        self.byn = {}
        for f in self.fns.values():
            self.byn.setdefault(f["n"], []).append(f)
        self.overriders = {}
        for f in self.fns.values():
            for o in f.get("over", []):
                self.overriders.setdefault(o, []).append(f)
        self._callees = {}
        self._modset = {}

    # -- look-ups ------------------------------------------------------------------------
    def find(self, q, nparams=None, ptypes=None, file=None):
        """functions whose qualified name ends with q (template arguments ignored)."""
        n = q.split("::")[-1]
        res = []
        for f in self.byn.get(n, []):
            fq = strip_targs(f["q"])
            if not (fq == q or fq.endswith("::" + q)):
                continue
            if nparams is not None and len(f["params"]) != nparams:
                continue
            if file and not f["file"].endswith(file):
                continue
            if ptypes is not None:
                if not all(i < len(f["params"]) and p in f["params"][i]["t"] for i, p in enumerate(ptypes)):
                    continue
            res.append(f)
        return res

    def one(self, q, **kw):
        r = self.find(q, **kw)
        if not r:
            raise AnchorMissing(q)
        return r[0]

    def rec(self, q):
        for k, v in self.recs.items():
            if strip_targs(k) == q or strip_targs(k).endswith("::" + q):
                return v
        raise AnchorMissing(q)

    def callees(self, f):
        u = f["u"]
        if u not in self._callees:
            out = []
            for n in walk(f.get("body")):
                if n.get("k") in ("call", "ctor") and n.get("u"):
                    out.append((n["u"], n))
            for i in f.get("inits", []):
                for n in walk(i.get("e")):
                    if n.get("k") in ("call", "ctor") and n.get("u"):
                        out.append((n["u"], n))
            self._callees[u] = out
        return self._callees[u]

    def modset(self, f, depth=0, seen=None):
        """names of fields a function may assign/mutate (transitively, through repository calls)"""
        u = f["u"]
        if u in self._modset:
            return self._modset[u]
        seen = seen or set()
        if u in seen or depth > 12:
            return set()
        seen.add(u)
        out = set()
        for n in walk(f.get("body")):
            k = n.get("k")
            if k == "asg" or (k == "un" and n.get("op") in ("++", "--")):
                t = n["a"] if k == "asg" else n["e"]
                out |= _lv_names(t)
            elif k == "call":
                if n.get("op") and n.get("args"):
                    if n["op"] in ("=", "+=", "-=", "*=", "/=", "++", "--", "<<") and not n.get("const"):
                        out |= _lv_names(n["args"][0])
                elif n.get("recv") and not n.get("const") and not n.get("root"):
                    out |= _lv_names(n["recv"])
                for a, pk in zip(n.get("args", []), n.get("pk", [])):
                    if pk in ("&", "*") and a:
                        out |= _lv_names(a)
                g = self.fns.get(n.get("u"))
                if g is not None:
                    out |= self.modset(g, depth + 1, seen)
        if depth == 0:
            self._modset[u] = out
        return out


def _lv_names(n):
    if not n:
        return set()
    if n.get("k") == "mem" and n.get("dk") == "field":
        return {n["n"]}
    if n.get("k") == "idx":
        return _lv_names(n["a"])
    if n.get("k") == "un" and n.get("op") in ("*", "&"):
        return _lv_names(n["e"])
    if n.get("k") == "call" and n.get("op") in ("[]", "*", "->"):
        return _lv_names(n["args"][0])
    if n.get("k") == "call" and n.get("recv") and n.get("n") in ("at", "front", "back", "get", "value"):
        return _lv_names(n["recv"])
    return set()


class AnchorMissing(Exception):
    pass


def strip_targs(s):
    if "operator" in s:
        i = s.index("operator")
        return strip_targs(s[:i]) + s[i:]
    out, d = [], 0
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out)


def walk(n):
    """pre-order over all nodes of a tree"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x or "e" in x or "body" in x or "init" in x:
                yield x
            st.extend(reversed([v for v in x.values() if isinstance(v, (dict, list))]))
        elif isinstance(x, list):
            st.extend(reversed(x))


def include_flags(gen):
    return (["-std=c++20", "-I" + gen, "-I" + os.path.join(VERIF, "stubs", "include")] +
            [f"-I{REPO}/{p}/include" for p in PKGS] + ["-I/usr/include/urdfdom"])


def load(verbose=False):
    os.makedirs(CACHE, exist_ok=True)
    ex = extractor()
    key = _hash_files(_inputs(), extra=os.path.basename(ex).encode() + REPO.encode())
    pk = os.path.join(CACHE, "db", key + ".pickle")
    os.makedirs(os.path.dirname(pk), exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(pk):
            _build(ex, key, pk)
            olds = sorted(glob.glob(os.path.join(CACHE, "db", "*.pickle")), key=os.path.getmtime)
            for o in olds[:-4]:
                os.unlink(o)
    with open(pk, "rb") as fh:
        return DB(pickle.load(fh))


def _build(ex, key, pk):
    work = os.path.join(CACHE, "work-%s" % key)
    shutil.rmtree(work, ignore_errors=True)
    gen = os.path.join(work, "gen")
    os.makedirs(gen)
    subprocess.run([sys.executable, os.path.join(VERIF, "tools", "genstubs.py"), REPO,
                    os.path.join(VERIF, "stubs", "msgs", "defs.txt"), gen], check=True,
                   stdout=subprocess.DEVNULL)
    tus = sorted(glob.glob(os.path.join(VERIF, "tus", "*.cpp"))) + repo_sources()
    flags = include_flags(gen)

    # per-unit cache: valid while every file the unit read is unchanged and the header tree has the same names
    tuc = os.path.join(CACHE, "tu")
    os.makedirs(tuc, exist_ok=True)
    tree = hashlib.sha256("\n".join(_inputs()).encode()).hexdigest()
    hcache = {}

    def fh(p):
        if p not in hcache:
            try:
                with open(p, "rb") as f:
                    hcache[p] = hashlib.sha256(f.read()).hexdigest()
            except OSError:
                hcache[p] = None
        return hcache[p]

    def one(src):
        sid = hashlib.sha1((src + os.path.basename(ex) + tree).encode()).hexdigest()
        for c in sorted(glob.glob(os.path.join(tuc, sid + "-*")), key=os.path.getmtime, reverse=True):
            with open(c, "rb") as f:
                deps = pickle.load(f)
                if all(fh(p.replace("@GEN@", gen)) == h for p, h in deps):
                    return src, pickle.load(f), 0, ""
        out = os.path.join(work, hashlib.sha1(src.encode()).hexdigest() + ".json")
        p = subprocess.run([ex, out, REPO, src, "--"] + flags, capture_output=True, text=True)
        if not os.path.exists(out):
            return src, None, p.returncode, p.stderr[-2000:]
        with open(out) as f:
            d = json.load(f)
        os.unlink(out)
        deps = [(x.replace(gen, "@GEN@"), fh(x)) for x in sorted(set(d.pop("deps", [])) | {src})]
        for c in sorted(glob.glob(os.path.join(tuc, sid + "-*")), key=os.path.getmtime)[:-3]:
            os.unlink(c)
        tmp = os.path.join(tuc, "%s.tmp%d" % (sid, os.getpid()))
        with open(tmp, "wb") as f:
            pickle.dump(deps, f, protocol=4)
            pickle.dump(d, f, protocol=4)
        os.rename(tmp, os.path.join(tuc, sid + "-%d" % (hash(tuple(deps)) & 0xffffffffffff)))
        return src, d, p.returncode, p.stderr[-2000:]

    tus.sort(key=lambda s: -os.path.getsize(s))
    with ThreadPoolExecutor(8) as tp:
        results = list(tp.map(one, tus))
    data = {"fns": {}, "recs": {}, "enums": {}, "gvars": {}, "errors": [], "tus": []}
    for src, d, rc, err in sorted(results, key=lambda r: r[0]):
        if d is None:
            data["errors"].append(f"{src}: extractor failed ({rc}): {err}")
            continue
        data["tus"].append(src)
        data["errors"] += d["errors"]
        for f in d["fns"]:
            # local variable ids are per translation unit: make them unique per function
            data["fns"].setdefault(f["u"], f)
        for r in d["recs"]:
            data["recs"].setdefault(r["t"], r)
        for e in d["enums"]:
            data["enums"].setdefault(e["q"], e)
        for g in d["gvars"]:
            data["gvars"].setdefault(g["q"], g)
    shutil.rmtree(work, ignore_errors=True)
    tmp = pk + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as fh:
        pickle.dump(data, fh, protocol=4)
    os.rename(tmp, pk)


if __name__ == "__main__":
    import time
    t = time.time()
    d = load()
    print(len(d.fns), "functions", len(d.recs), "records", len(d.tus), "TUs", len(d.errors), "errors",
          "%.1fs" % (time.time() - t))
    for e in d.errors[:10]:
        print(e)
    if len(sys.argv) > 1:
        for f in d.find(sys.argv[1]):
            print(json.dumps(f, indent=1) if len(sys.argv) > 2 else (f["q"], f["file"], f["l"]))
