#!/bin/bash
# all checks in parallel: tools/allchecks.sh [ids...]
cd /verif
ids=${@:-$(ls sa/checks | grep -oE "^c[0-9]+" | tr c C)}
printf "%s\n" $ids | xargs -P 8 -I{} sh -c 'python3 -m sa.run {} > /tmp/chk_{}.log 2>&1; echo "{} rc=$? $(tail -1 /tmp/chk_{}.log | cut -c1-200)"' | sort | tee /tmp/allchecks.out; echo "NOT ZERO: $(grep -cv " rc=0 " /tmp/allchecks.out)"; grep -v " rc=0 " /tmp/allchecks.out
