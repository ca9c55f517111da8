#!/bin/bash
# trytests.sh SEED...: the repository's own stable tests with each planted bug, in a scratch copy
# bind-mounted over /repo in a namespace of its own.
for s in "$@"; do
	W=/tmp/trytests.$s
	rm -rf "/tmp/trytests.$s"
	cp -a /repo $W
	(cd $W && git apply /verif/seeded/$s/patch.diff) || { echo "$s: does not apply"; continue; }
	touch $(cd $W && git diff --name-only | sed "s,^,$W/,")
	unshare -Urm bash -c "mount --bind $W /repo && cd /repo && bash /opt/vp/test.sh $W.json" >$W.log 2>&1
	python3 - $s $W.json <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json'))
b=set(base.get('passed') or base.get('stable') or base) if isinstance(base,dict) else set(base)
r=json.load(open(sys.argv[2]))
bad=[t for t in b if t not in set(r['passed'])]
print(sys.argv[1],'passed',len(r['passed']),'failing stable:',len(bad),[t[:80] for t in bad[:4]])
P
	rm -rf "/tmp/trytests.$s"
done
