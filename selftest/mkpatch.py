#!/usr/bin/env python3
"""mkpatch.py SEED FILE <<< 'old|||new' blocks separated by '====': writes seeded/SEED/patch.diff from a scratch copy."""
import sys, subprocess, os, tempfile, shutil
seed = sys.argv[1]
spec = sys.stdin.read()
t = tempfile.mkdtemp(prefix="mkp")
try:
    subprocess.check_call(["git", "-C", "/repo", "worktree", "list"], stdout=subprocess.DEVNULL)
    files = {}
    for blk in spec.split("\n====\n"):
        f, old, new = blk.strip("\n").split("\n|||\n") if blk.count("\n|||\n") == 2 else (blk.strip("\n") + "\n").split("\n|||\n")
        f = f.strip()
        s = files.get(f) or open("/repo/src/mg/" + f).read()
        new = new.rstrip("\n")
        assert s.count(old) == 1, (f, s.count(old), old)
        files[f] = s.replace(old, new)
    out = ""
    for f, s in files.items():
        rel = "src/mg/" + f
        p = os.path.join(t, "new")
        open(p, "w").write(s)
        d = subprocess.run(["diff", "-u", "--label", "a/" + rel, "--label", "b/" + rel, "/repo/" + rel, p], capture_output=True, text=True).stdout
        out += "diff --git a/%s b/%s\n" % (rel, rel) + d
    os.makedirs("/verif/seeded/" + seed, exist_ok=True)
    open("/verif/seeded/%s/patch.diff" % seed, "w").write(out)
    print(len(out.splitlines()), "lines")
finally:
    shutil.rmtree(t)
