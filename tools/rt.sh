#!/bin/bash
# rebuild /repo, run its tests, compare with the baseline
T=$(mktemp -d /tmp/rt.XXXXXX)
(bash /opt/vp/build.sh && bash /opt/vp/test.sh $T/out.json) >$T/bt.log 2>&1; tail -1 $T/bt.log
python3 /verif/tools/base.py $T/out.json
rm -rf "$T"
