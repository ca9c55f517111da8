"""Registry of the checks and running of those."""
import importlib, json, multiprocessing, os, sys, time, traceback

from . import ir
from .ir import AnalysisBroken
from .engine import Enough

HERE = ir.HERE
CHECKS = {}


class Result:
    """What one property's check covered and found."""

    def __init__(self, tier):
        self.tier = tier
        self.violations = []
        self.stats = {}
        self.rules = []
        self.functions = set()
        self.progs = {}
        self.steps = 0
        self.paths = 0
        self.entries = []
        self.known = []
        self.instances = {}

    def prog(self, config="epoll", modules=ir.MODULES):
        p = ir.load(config, modules)
        self.progs[(config, tuple(modules))] = p
        return p

    def rule(self, name, text):
        self.rules.append({"rule": name, "text": text})

    def instance(self, rule, what, n=1):
        self.instances.setdefault(rule, {})
        self.instances[rule][what] = self.instances[rule].get(what, 0) + n

    def need(self, rule, what, minimum):
        """A rule which matched nothing is a broken analysis."""
        n = self.instances.get(rule, {}).get(what, 0)
        if n < minimum and not self.violations:
            raise AnalysisBroken("rule %s: only %d instances of '%s', expected at least %d" % (rule, n, what, minimum))

    def violation(self, rule, msg, file="", line=0, function="", **kw):
        v = {"rule": rule, "msg": msg, "file": file, "line": line, "function": function}
        v.update(kw)
        self.violations.append(v)

    def add(self, ip, rulename):
        """Collect results of an interpreter run."""
        self.steps += ip.steps
        self.paths += ip.paths
        self.functions |= ip.funcs_seen
        for v in ip.rule.violations:
            v = dict(v)
            v["rule"] = rulename
            if not any(x["rule"] == rulename and x["msg"] == v["msg"] and x["line"] == v["line"] and
                       x["file"] == v["file"] for x in self.violations):
                self.violations.append(v)
        ip.rule.violations = []
        for k, n in ip.rule.stats.items():
            self.instance(rulename, k, n)
        ip.rule.stats = {}

    def walk(self, prog, rule, f, name, this=None, args=None, dyn=None, setup=None):
        from .engine import Interp
        ip = Interp(prog, rule)
        ip.is_known = lambda v: any(is_known(dict(v, rule=name), k) for k in self.known)
        self.entries.append(f.qn)
        try:
            out = ip.entry(f, this, args, dyn, setup)
        finally:
            self.add(ip, name)
        return ip, out


    def parallel(self, jobs):
        """Run independent jobs, each given a result of its own, in processes."""
        global JOBS
        n = min(len(jobs), os.cpu_count() or 1)
        if n <= 1 or os.environ.get("VERIF_SERIAL"):
            for j in jobs:
                j(self)
            return
        JOBS = (self, jobs)
        with multiprocessing.get_context("fork").Pool(n) as pool:
            out = pool.map(run_job, range(len(jobs)), 1)
        failed = None
        for r, err in out:
            self.steps += r.steps
            self.paths += r.paths
            self.functions |= r.functions
            self.entries += r.entries
            for v in r.violations:
                if not any(all(x[k] == v[k] for k in ("rule", "msg", "line", "file")) for x in self.violations):
                    self.violations.append(v)
            for rn, m in r.instances.items():
                for k, c in m.items():
                    self.instance(rn, k, c)
            failed = failed or err
        if failed is not None and not (self.violations and isinstance(failed, Enough)):
            raise failed


JOBS = None


def run_job(i):
    parent, jobs = JOBS
    r = Result(parent.tier)
    r.known = parent.known
    r.progs = parent.progs
    err = None
    try:
        jobs[i](r)
    except Exception as e:
        err = e if isinstance(e, (AnalysisBroken, Enough)) or type(e).__module__.startswith("sa.") else \
            RuntimeError(traceback.format_exc())
    r.progs = {}
    r.known = []
    return r, err


def check(pid):
    def deco(fn):
        CHECKS[pid] = fn
        return fn
    return deco


def known_findings(pid):
    """Lines "finding: property=<id> rule=<rule> function=<fn> match=<text> | description"."""
    res = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            o = json.loads(line)
            if o.get("status") == "finding" and o.get("property") == pid:
                res.append(o)
    return res


def is_known(v, k):
    return (v["rule"] == k["rule"] and v["function"] == k["function"] and k["match"] in v["msg"])


def load_rules():
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "rules")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py":
            importlib.import_module("sa.rules." + f[:-3])


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    load_rules()
    if pid not in CHECKS:
        print("unknown property " + pid)
        return 2
    t0 = time.time()
    res = Result(tier)
    res.known = known_findings(pid)
    broken = False
    try:
        CHECKS[pid](res)
    except Enough as e:
        print("NOTE property=%s the walk was cut: %s" % (pid, e))
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        if os.environ.get("VERIF_TB"):
            traceback.print_exc()
        broken = True
    known = res.known
    new = []
    found_known = []
    for v in res.violations:
        k = next((k for k in known if is_known(v, k)), None)
        if k is not None:
            if k not in found_known:
                found_known.append(k)
        else:
            new.append(v)
    wall = time.time() - t0
    units = sorted({u for p in res.progs.values() for u in p.units})
    inst_total = sum(n for d in res.instances.values() for n in d.values())
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis of the current sources: " +
                           " ".join(r["rule"] + ": " + r["text"] for r in res.rules),
            "translation_units": len(units),
            "configurations": sorted({c for c, _ in res.progs}),
            "functions_walked": len(res.functions),
            "entry_points": sorted(set(res.entries)),
            "abstract_steps": res.steps,
            "exit_paths": res.paths,
            "rule_instances": res.instances,
            "rules": res.rules,
            "functions": sorted({res_name(res, i) for i in res.functions}),
        },
        "assumptions": [
            "distinct symbolic pointers do not alias unless compared equal on the path",
            "the standard library, the kernel and OpenSSL behave as documented",
            "Linux builds only (epoll and io_uring back ends); Windows and macOS sources are not analysed",
        ],
        "wall_s": round(wall, 2),
        "violations": len(new),
        "reported": [dict(rule=v["rule"], msg=v["msg"], at="%s:%s" % (v["file"], v["line"])) for v in new],
        "known_findings": [k["what"] for k in found_known],
    }
    evdir = os.path.join(HERE, "evidence")
    if os.environ.get("VERIF_SELFTEST"):
        evdir = os.environ["VERIF_REPO"]
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1, sort_keys=True)
    print("%s: %d units, %d functions, %d entry points, %d abstract steps, %d paths, %d rule instances, %.1f s" % (
        pid, len(units), len(res.functions), len(set(res.entries)), res.steps, res.paths, inst_total, wall))
    for r, d in sorted(res.instances.items()):
        print("  %s: %s" % (r, ", ".join("%s=%d" % x for x in sorted(d.items()))))
    for k in found_known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if new:
        rp = os.path.join(evdir, pid + ".replay.txt")
        with open(rp, "w") as f:
            for v in new:
                f.write("%s:%s: [%s] %s\n  in %s" % (v["file"], v["line"], v["rule"], v["msg"], v["function"]))
                if v.get("entry"):
                    f.write(", entry point %s, via %s" % (v["entry"], " > ".join(v.get("stack", []))))
                f.write("\n")
                for t in v.get("trace", []):
                    f.write("    " + t + "\n")
        for v in new[:20]:
            print("%s:%s: [%s] %s (in %s%s)" % (v["file"], v["line"], v["rule"], v["msg"], v["function"],
                                              ", entry " + v["entry"] if v.get("entry") else ""))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 3 if broken else 0


def res_name(res, fid):
    for p in res.progs.values():
        f = p.funcs.get(fid)
        if f is not None:
            return "%s (%s)" % (f.qn, f.file)
    return fid
