#!/bin/bash
# development: build one property module and run the given jobs
id=$1; shift; cd /verif; bash dev.sh $id
for j in ${@:-$(grep -oP '^fn \K\w+(?=\(\) \{$)' harness/props/$id.rs | awk -v f=harness/props/$id.rs 'BEGIN{}{print}')}; do echo "== $j"; (time DSYM_SLOWQ=3 engine/dsym /tmp/$id.ll --entry $j --out /tmp/o_$id.json --timeout ${TMO:-120} --qtimeout 10 --exttimeout 20 --workers ${W:-8} $OPTS 2>/tmp/log_$id) 2>&1 | grep real; python3 show.py /tmp/o_$id.json | cut -c1-1100; tail -3 /tmp/log_$id; done
