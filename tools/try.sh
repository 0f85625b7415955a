#!/bin/bash
# try.sh ID [PROP]: does the check of PROP (default: the bug's) catch seeded/ID?  Works on a copy.
D=$(mktemp -d /tmp/try.XXXXXX); mkdir $D/r; mkdir $D/r/compilers; cp -a /repo/src /repo/schema /repo/jars $D/r/; cp -a /repo/compilers/plexil $D/r/compilers/
(cd $D/r && patch -s -p1 < /verif/seeded/$1/patch.diff) || exit 9
P=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")}
cp -a /verif/check.py /verif/lib /verif/harness /verif/spec /verif/known_findings.txt $D/
cd $D && VERIF_REPO=$D/r python3 check.py $P ${@:3} > out.txt 2>&1; rc=$?
echo "$1 $P: exit $rc  $(grep -a record out.txt | head -3 | cut -c1-140 | tr '\n' '|') $(grep -c ^VIOLATION out.txt)"; [ $rc -gt 1 ] && tail -5 out.txt
rm -rf "$D"
