#!/usr/bin/env python3
"""Self-test of the checks: mutants which must be reported, refactorings which must not.

usage: run.py [property|file prefix ...]. Each entry of *.mut.py is
  (property, "bad"|"ok", file, [(old, new), ...])
Works in scratch copies under /tmp."""
import concurrent.futures, glob, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
R = os.environ.get("SELFTEST_REPO", "/repo")


def load():
    res = []
    for f in sorted(glob.glob(HERE + "/*.mut.py")):
        ns = {}
        exec(open(f).read(), ns)
        for i, m in enumerate(ns["M"]):
            for prop in m[0].split():
                res.append((os.path.basename(f)[:-7] + "#%d" % i, prop) + tuple(m[1:]))
    return res


def one(m):
    name, prop, kind, file, subs = m
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        shutil.copytree(R + "/src", d + "/src")
        p = os.path.join(d, "src/mg", file)
        s = open(p).read()
        for a, b in subs:
            if s.count(a) < 1:
                return (name, prop, kind, "STALE: no '%s'" % a.strip()[:50])
            s = s.replace(a, b, 1)
        open(p, "w").write(s)
        e = dict(os.environ, VERIF_REPO=d, VERIF_SELFTEST="1")
        e.pop("VERIF_CACHE", None)
        r = subprocess.run([sys.executable, V + "/check.py", prop], capture_output=True, text=True, env=e, timeout=880)
        want = 1 if kind == "bad" else 0
        lines = [x for x in r.stdout.splitlines() if "[" in x and ": " in x and not x.startswith(" ")]
        if kind == "ok" and r.returncode == 0:
            return (name, prop, kind, "fine")
        if r.returncode == want:
            return (name, prop, kind, "fine: " + (lines[0][:170] if lines else ""))
        return (name, prop, kind, "WRONG rc=%d %s %s" % (r.returncode, " | ".join(lines)[:300], (r.stdout + r.stderr)[-600:] if not lines else ""))
    except subprocess.TimeoutExpired:
        return (name, prop, kind, "WRONG: no answer in time")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ms = load()
    if len(sys.argv) > 1:
        ms = [m for m in ms if any(m[1] == a or m[0].startswith(a) for a in sys.argv[1:])]
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, ms):
            print("%-14s %s %-3s %s" % r, flush=True)
            if not r[3].startswith("fine"):
                bad += 1
    print("%d run, %d wrong" % (len(ms), bad))
    return 1 if bad else 0


sys.exit(main())
