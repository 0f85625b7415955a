#!/bin/bash
# bt.sh SCENARIO-ID: backtrace of a crashing scenario of the last smoke run
awk -v s="$1" '$0=="BEGIN " s{f=1} f{print} /^END/{if(f)exit}' ${W:-/tmp/w}/scenarios.txt > /tmp/bt.txt
D=$(python3 -c "
import sys; sys.path.insert(0,'/verif/lib'); import build; print(build.build(['driver'])['driver'])")
mkdir -p /tmp/l; cd /tmp/l; ulimit -c 0
gdb -batch -ex "set follow-fork-mode child" -ex run -ex bt --args $D /tmp/bt.txt /tmp/l 1 2>&1 | grep -E "^#|ssert|SIG"
