#!/usr/bin/env python3
"""Run the check of one property: run.py <property> [quick|thorough]"""
import sys, os, json, time, importlib, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "checks"))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)
from prog import AnalysisError, CompileError  # noqa: E402


def load_known():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                d = {}
                body = l[len("known:"):].strip()
                parts = body.split(" ", 2)
                for x in parts[:2]:
                    k, v = x.split("=", 1)
                    d[k] = v
                d["what"] = parts[2] if len(parts) > 2 else ""
                out.setdefault(d["property"], {})[d["key"]] = d["what"]
    return out


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.thorough = tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.obligations = 0
        self.discharged = 0
        self.viol = []
        self.errors = []
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.rules = {}
        self.functions = set()
        self.explain = ""

    def ob(self, rule, key, ok, msg="", loc=None, detail=None):
        """One obligation of a rule. key identifies the instance."""
        self.obligations += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if ok:
            self.discharged += 1
        else:
            self.viol.append({"rule": rule, "key": key, "msg": msg, "loc": loc, "detail": detail})
        return ok

    def sample(self, s):
        if len(self.samples) < 24:
            self.samples.append(s)

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def used(self, I):
        P = I.P
        for fid in I.analysed:
            f = P.F[fid]
            if P.in_lib(f.get("l")):
                self.functions.add((f["q"], P.loc(f["l"])))
        self.count("abstract_paths", I.paths)
        self.count("branches", I.branches)
        I.paths = 0
        I.branches = 0

    def need(self, rule, n):
        """analysis is broken if a rule matched fewer instances than confirmed by hand"""
        have = self.rules.get(rule, 0)
        if have < n:
            self.errors.append("rule '%s' matched %d instances, at least %d expected" % (rule, have, n))

    def error(self, msg):
        self.errors.append(msg)

    def guard(self, what):
        ctx = self

        class G:
            def __enter__(self):
                return self

            def __exit__(self, t, e, tb):
                if t is not None and issubclass(t, (AnalysisError, CompileError)):
                    ctx.errors.append("%s: %s" % (what, e))
                    return True
                return False
        return G()


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    ctx = Ctx(pid, tier)
    mod = importlib.import_module(pid.lower())
    try:
        mod.run(ctx)
    except (AnalysisError, CompileError) as e:
        ctx.errors.append(str(e))
        if os.environ.get("VP_TRACE"):
            traceback.print_exc()
    except Exception:
        ctx.errors.append("internal error:\n" + traceback.format_exc())
    if hasattr(mod, "NEED") and not ctx.errors and not ctx.viol:
        for r, n in mod.NEED.items():
            ctx.need(r, n)
    known = load_known().get(pid, {})
    new = [v for v in ctx.viol if v["key"] not in known]
    old = {}
    for v in ctx.viol:
        if v["key"] in known:
            old[v["key"]] = v
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": ctx.seed,
        "level": getattr(mod, "LEVEL", "other"),
        "coverage": dict({
            "explanation": (mod.__doc__ or "").strip() + ("\n" + ctx.explain if ctx.explain else ""),
            "obligations": ctx.obligations, "discharged": ctx.discharged,
            "obligations_per_rule": ctx.rules,
            "library_functions_analysed": len(ctx.functions),
            "functions": sorted("%s @ %s" % f for f in ctx.functions)[:400],
            "samples": ctx.samples,
        }, **ctx.cov),
        "assumptions": ctx.assumptions + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 3), "violations": len(new),
    }
    if ctx.errors:
        ev["coverage"]["analysis_errors"] = ctx.errors[:20]
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[k], k))
    for v in new[:12]:
        print("%s: rule '%s', instance %s: %s" % (v["loc"] or "?", v["rule"], v["key"], v["msg"]))
        if v["detail"]:
            for l in (v["detail"] if isinstance(v["detail"], list) else [v["detail"]])[:12]:
                print("    " + str(l))
    if len(new) > 12:
        print("... and %d more instances" % (len(new) - 12))
    for e in ctx.errors[:8]:
        print("analysis error: " + e, file=sys.stderr)
    print("%s: %d obligations, %d discharged, %d library functions analysed, %.1f s" %
          (pid, ctx.obligations, ctx.discharged, len(ctx.functions), wall))
    if new:
        rp = os.path.join(evdir, pid + ".violation.json")
        with open(rp, "w") as f:
            json.dump(new, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if ctx.errors:
        return 2
    return 0


if __name__ == "__main__":
    rc = [3]

    def go():
        rc[0] = main()
    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0])
