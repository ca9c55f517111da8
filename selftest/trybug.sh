#!/bin/bash
# trybug.sh SEED...: with each planted bug in a scratch copy: demo, and the check of its property.
cd /verif
for s in "$@"; do
	W=/tmp/trybug.$s
	rm -rf "/tmp/trybug.$s"
	mkdir -p $W
	cp -r /repo/src $W/src
	(cd $W && patch -s -p1 < /verif/seeded/$s/patch.diff) || { echo "$s: does not apply"; continue; }
	p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
	(cd /repo && bash /verif/seeded/$s/demo.sh >/dev/null 2>&1); good=$?
	(cd $W && bash /verif/seeded/$s/demo.sh >$W/demo.out 2>&1); bad=$?
	out=$(VERIF_REPO=$W python3 check.py $p 2>&1); rc=$?
	echo "$s $p demo clean=$good bug=$bad check=$rc: $(echo "$out" | grep -m1 -A3 VIOLATION | cut -c1-200 | tr '\n' ' ')"
	rm -rf "/tmp/trybug.$s"
done
