"""Loading of the exported (resolved, instantiated) program and queries on it."""
import json, os, subprocess, hashlib, fcntl, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
RES = "/usr/lib/llvm-18/lib/clang/18"
LLVM = "/usr/lib/llvm-18"


class AnalysisError(Exception):
    """The analysis itself could not be carried out (never a verdict)."""


class AnalysisLimit(AnalysisError):
    """Too many steps or too much storage."""


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "engine", "exporter.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "exporter-" + h)
    if os.path.exists(exe):
        return exe
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        tmp = exe + ".tmp%d" % os.getpid()
        cmd = ["g++", "-std=c++17", "-fno-rtti", "-O1", "-w", "-I" + LLVM + "/include", src, "-o", tmp,
               LLVM + "/lib/libclang-cpp.so.18.1", "-L" + LLVM + "/lib", "-lLLVM-18",
               "-Wl,-rpath," + LLVM + "/lib"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise AnalysisError("cannot build the exporter:\n" + r.stdout[-3000:])
        os.rename(tmp, exe)
    return exe


class CompileError(Exception):
    pass


def export(driver, defines=(), std="c++17", includes=()):
    """Parse a driver TU together with the library headers of the current tree."""
    exe = build_tool()
    out = os.path.join(BUILD, "tu-%s-%d-%d.json" % (os.path.basename(driver), os.getpid(), int(time.time() * 1e6) % 10**9))
    src = driver if os.path.isabs(driver) else os.path.join(VERIF, "drivers", driver)
    roots = os.path.join(REPO, "include") + "/:" + os.path.dirname(src) + "/"
    cmd = [exe, out, src, roots, "--", "-std=" + std, "-I" + os.path.join(REPO, "include"),
           "-I" + os.path.dirname(src), "-isystem", "/usr/include/eigen3", "-resource-dir", RES, "-w",
           "-fbracket-depth=1024"]
    cmd += ["-D" + d for d in defines]
    if includes:
        k = cmd.index("--") + 1
        cmd[k:k] = ["-I" + (i if os.path.isabs(i) else os.path.join(VERIF, "drivers", i)) for i in includes]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        if r.returncode != 0 or not os.path.exists(out):
            raise CompileError("driver %s does not compile against the current tree:\n%s" % (driver, r.stdout[-4000:]))
        with open(out) as f:
            return Prog(json.load(f), driver)
    finally:
        if os.path.exists(out):
            os.unlink(out)


class Prog:
    def __init__(self, d, name=""):
        self.name = name
        self.files = d["files"]
        self.types = d["types"]
        self.F = {int(k): v for k, v in d["funcs"].items()}
        self.R = {int(k): v for k, v in d["recs"].items()}
        self.V = {int(k): v for k, v in d["vars"].items()}
        for k, v in self.F.items():
            v["id"] = k
        for k, v in self.R.items():
            v["id"] = k
        for k, v in self.V.items():
            v["id"] = k
        self.byq = {}
        for f in self.F.values():
            self.byq.setdefault(f["q"], []).append(f)
        self.field = {}
        for r in self.R.values():
            for fl in r.get("fields", ()):
                self.field[fl["d"]] = (r, fl)
        self.recs_by_q = {}
        for r in self.R.values():
            self.recs_by_q.setdefault(r["q"], []).append(r)
        self.rec_by_s = {r["s"]: r for r in self.R.values()}
        self._over = {}
        self._bases = {}
        self._findcache = {}

    # -- helpers -------------------------------------------------------
    def loc(self, l):
        if not l or l[0] < 0:
            return "?"
        f = self.files[l[0]]
        if f.startswith(REPO + "/"):
            f = f[len(REPO) + 1:]
        return "%s:%d" % (f, l[1])

    def fileof(self, l):
        return self.files[l[0]] if l and l[0] >= 0 else ""

    def in_lib(self, l):
        return self.fileof(l).startswith(os.path.join(REPO, "include") + "/")

    def ty(self, t):
        return self.types[t]

    def strip_ref(self, t):
        T = self.types[t]
        return self.types[T["to"]] if T["c"] in ("lref", "rref") else T

    def is_ref(self, t):
        return self.types[t]["c"] in ("lref", "rref")

    def func(self, q, pred=None):
        c = [f for f in self.byq.get(q, ()) if pred is None or pred(f)]
        if len(c) != 1:
            raise AnalysisError("anchor %s: %d candidates in %s" % (q, len(c), self.name))
        return c[0]

    def funcs(self, q):
        return self.byq.get(q, [])

    def bases(self, rid):
        if rid in self._bases:
            return self._bases[rid]
        s = {rid}
        for b in self.R[rid].get("bases", ()):
            s |= self.bases(b)
        self._bases[rid] = s
        return s

    def overrides(self, fid):
        """All methods transitively overridden by fid, including itself."""
        if fid in self._over:
            return self._over[fid]
        s = {fid}
        for b in self.F[fid].get("over", ()):
            s |= self.overrides(b)
        self._over[fid] = s
        return s

    def final(self, rid, fid):
        """Final overrider of virtual method fid in dynamic class rid."""
        key = (rid, fid)
        if key in self._findcache:
            return self._findcache[key]
        r = self._final(rid, fid)
        self._findcache[key] = r
        return r

    def _final(self, rid, fid):
        for m in self.R[rid].get("methods", ()):
            if fid in self.overrides(m):
                return m
        for b in self.R[rid].get("bases", ()):
            r = self._final(b, fid)
            if r is not None:
                return r
        return None

    def all_fields(self, rid):
        out = []
        for b in self.R[rid].get("bases", ()):
            out += self.all_fields(b)
        out += self.R[rid].get("fields", [])
        return out

    # -- generic AST walking -------------------------------------------
    @staticmethod
    def walk(n):
        st = [n]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if "k" in x or "s" in x:
                    yield x
                for v in x.values():
                    if isinstance(v, (dict, list)):
                        st.append(v)
            elif isinstance(x, list):
                for v in x:
                    if isinstance(v, (dict, list)):
                        st.append(v)

    def body_nodes(self, f):
        for part in ("inits", "body"):
            if part in f:
                yield from self.walk(f[part])

    def callees(self, f):
        out = []
        for n in self.body_nodes(f):
            if n.get("k") in ("Call", "MCall", "Ctor", "ICtor", "Fn") and "f" in n:
                out.append(n["f"])
            if n.get("k") == "Lambda":
                out.append(n["call"])
            if n.get("k") == "Cast" and "cf" in n:
                out.append(n["cf"])
        return out

    def find_below(self, fid, pred, limit=400):
        """Breadth-first search through resolved callees for a node satisfying pred."""
        key = ("fb", fid, pred.__code__.co_code if hasattr(pred, "__code__") else id(pred), getattr(pred, "key", None))
        if getattr(pred, "key", None) is not None and key in self._findcache:
            return self._findcache[key]
        seen = {fid}
        q = [fid]
        res = None
        while q and len(seen) < limit and res is None:
            nq = []
            for x in q:
                f = self.F[x]
                for n in self.body_nodes(f):
                    if pred(n):
                        res = n
                        break
                if res is not None:
                    break
                for c in self.callees(f):
                    if c not in seen:
                        seen.add(c)
                        nq.append(c)
            q = nq
        if getattr(pred, "key", None) is not None:
            self._findcache[key] = res
        return res
