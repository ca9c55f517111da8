#!/usr/bin/env python3
"""mkdemo.py DIR mode: writes demo.sh which builds DIR/demo.cpp with the sources of the repository."""
import sys, os
d, mode = sys.argv[1], sys.argv[2]
aio = mode.endswith("+aio")
mode = mode.split("+")[0]
extra = " ".join(sys.argv[3:])
flags = {"asan": "-fsanitize=address", "tsan": "-fsanitize=thread", "preempt": "-fsanitize=address -finstrument-functions -finstrument-functions-exclude-file-list=/usr/include,c++,preempt.h", "plain": ""}[mode]
run = {"tsan": 'echo "race:mg::box::Mutex::IsOwnedByThisThread" > "$T/supp"; TSAN_OPTIONS="suppressions=$T/supp exitcode=66 halt_on_error=1" timeout 200 "$T/demo"'}.get(mode, 'ASAN_OPTIONS=detect_leaks=0 timeout 200 "$T/demo"' if "leak" not in extra else 'timeout 200 "$T/demo"')
open(os.path.join(d, "demo.sh"), "w").write("""#!/bin/bash
# Run in the repository, after its build.
set -u
D="$(cd "$(dirname "$0")" && pwd)"
R="$(pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
S="$R/src/mg"
SRCS="$(ls %s | grep -v -e _Win -e _Apple -e kqueue -e IOCP -e iouring)"
for f in $SRCS; do
	echo "g++ -std=c++20 -g -O1 -pthread %s -I$R/src -c $f -o $T/$(basename $(dirname $f))_$(basename $f .cpp).o"
done > "$T/jobs"
echo "g++ -std=c++20 -g -O1 -pthread %s -I$R/src -I$D -c $D/demo.cpp -o $T/demo_main.o" >> "$T/jobs"
xargs -P 8 -I{} sh -c '{}' < "$T/jobs" || { echo "does not build"; exit 3; }
g++ -std=c++20 -g -pthread %s $T/*.o -o "$T/demo" %s || { echo "does not link"; exit 3; }
%s
rc=$?
echo "demo exit code $rc"
exit $rc
""" % (" ".join("$S/%s/*.cpp" % x for x in ("box", "sch", "stub") + (("aio", "net", "sio") if aio else ())), flags, flags,
       flags.split()[0] if flags else "", "-lssl -lcrypto" if aio else "", run))
os.chmod(os.path.join(d, "demo.sh"), 0o755)
