"""Compile-time witnesses: small programs that must, or must not, be accepted by the compiler."""
import os, re, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
from prog import REPO, BUILD, RES, AnalysisError, CompileError

CLANG = "/usr/lib/llvm-18/bin/clang++" if os.path.exists("/usr/lib/llvm-18/bin/clang++") else "clang++-18"
if not os.path.exists(CLANG):
    CLANG = shutil.which("clang++-18") or shutil.which("clang++") or "clang++"


class Witness:
    def __init__(self, prelude, std="c++17", eigen=False):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="wit-", dir=BUILD)
        self.flags = ["-std=" + std, "-I" + os.path.join(REPO, "include"), "-w", "-fbracket-depth=1024", "-ferror-limit=20"]
        if eigen:
            self.flags += ["-isystem", "/usr/include/eigen3"]
        self.h = os.path.join(self.dir, "prelude.hpp")
        open(self.h, "w").write(prelude)
        self.pch = self.h + ".pch"
        r = subprocess.run([CLANG] + self.flags + ["-x", "c++-header", self.h, "-o", self.pch],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self.err = None if r.returncode == 0 else r.stdout[-3000:]

    def __enter__(self):
        if self.err:
            self.close()
            raise CompileError("the witnesses' common part does not compile against the current tree:\n" + self.err)
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def compile(self, i, code):
        src = os.path.join(self.dir, "w%d.cpp" % i)
        open(src, "w").write(code)
        r = subprocess.run([CLANG] + self.flags + ["-include-pch", self.pch, "-fsyntax-only", src],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode not in (0, 1):
            return None, r.stderr
        return r.returncode == 0, r.stderr

    def run(self, cases):
        """cases: list of (key, code). Returns list of (key, accepted, diagnostics)"""
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda t: self.compile(*t), [(i, c[1]) for i, c in enumerate(cases)]))
        out = []
        for (key, code), (ok, err) in zip(cases, res):
            if ok is None:
                raise AnalysisError("the compiler failed on witness %s:\n%s" % (key, err[-2000:]))
            out.append((key, ok, err))
        return out


    def rejected(self, cases, group=60):
        """Which of the programs are rejected? Programs share a translation unit (each in its own
        namespace); one is rejected if an error is reported in it, or in an instantiation it
        requests. Programs without such an error are compiled on their own."""
        flags = self.flags
        self.flags = [f for f in flags if not f.startswith("-ferror-limit")] + ["-ferror-limit=0", "-ftemplate-backtrace-limit=0"]
        try:
            gs = [cases[i:i + group] for i in range(0, len(cases), group)]
            src, lines = [], []
            for gi, g in enumerate(gs):
                text, ln = "", []
                for j, (k, c) in enumerate(g):
                    a = text.count("\n") + 1
                    text += "namespace w%d {\n%s}\n" % (j, c)
                    ln.append((a, text.count("\n")))
                src.append((gi, text))
                lines.append(ln)
            rej = [[False] * len(g) for g in gs]
            for gi, ok, err in self.run(src):
                if ok:
                    continue
                live = False
                for l in err.splitlines():
                    m = re.match(r"(\S+?):(\d+):\d+: (?:fatal )?(error|note|warning): (.*)", l)
                    if not m:
                        continue
                    if m.group(3) != "note":
                        live = m.group(3) == "error"
                    if not live or not m.group(1).endswith("/w%d.cpp" % gi):
                        continue
                    if m.group(3) == "error" or "requested here" in m.group(4) or "in instantiation of" in m.group(4) or "first required here" in m.group(4):
                        n = int(m.group(2))
                        for j, (a, b) in enumerate(lines[gi]):
                            if a <= n <= b:
                                rej[gi][j] = True
        finally:
            self.flags = flags
        out = [(k, rej[gi][j]) for gi, g in enumerate(gs) for j, (k, c) in enumerate(g)]
        rest = [i for i, (k, r) in enumerate(out) if not r]
        for i, (_, ok, err) in zip(rest, self.run([(i, cases[i][1]) for i in rest])):
            out[i] = (out[i][0], not ok)
        self.alone = len(rest)
        return out


def first_error(err):
    for l in err.splitlines():
        if ": error: " in l or "fatal error: " in l:
            l = l.replace(REPO + "/", "")
            return l[l.rindex("/build/") + 1:] if "/build/" in l.split(":")[0] else l
    return err.strip().splitlines()[0] if err.strip() else ""


def lib_loc(err):
    """last library location mentioned in the diagnostics"""
    out = None
    for l in err.splitlines():
        if (REPO + "/include/") in l.split(" ")[0]:
            p = l.split(":")
            if len(p) > 2 and p[1].isdigit():
                out = "%s:%s" % (p[0][len(REPO) + 1:], p[1])
    return out
