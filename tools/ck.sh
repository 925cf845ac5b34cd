#!/bin/bash
# short summary of one check: tools/ck.sh C11 [n]
cd /verif; SA_DEBUG=$DBG python3 -m sa.run $1 > /tmp/ck_$1.log 2>&1; echo rc=$?
grep -c ^UNDECIDED /tmp/ck_$1.log; grep ^UNDECIDED /tmp/ck_$1.log | head -${2:-6} | cut -c1-330
grep -A3 violated: /tmp/ck_$1.log | head -$((4*${2:-6})) | cut -c1-500; grep -v ^UNDEC /tmp/ck_$1.log | tail -2 | cut -c1-300
