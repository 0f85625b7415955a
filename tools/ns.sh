#!/bin/bash
# ns.sh CMD...: run CMD with a private copy of /repo mounted over /repo
D=$(mktemp -d /tmp/plns.XXXXXX)
cp -a /repo/. "$D/"
unshare -Urm bash -c 'mount --bind "$0" /repo && cd /verif && exec "$@"' "$D" "$@"
rc=$?
rm -rf "$D"
exit $rc
