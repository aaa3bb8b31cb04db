#!/bin/bash
# try.sh PATCH|-R:COMMIT PROP... : run checks against a scratch copy of /repo with a patch applied
set -e
P=$1; shift
D=$(mktemp -d /tmp/try.XXXXXX)
trap 'rm -rf "$D"' EXIT
cp -a /repo/src "$D/src"; cp -a /repo/.git "$D/.git" 
case $P in
 -R:*) git -C /repo show ${P#-R:} | (cd $D && git apply -R --exclude=zz -) ;;
 *) (cd $D && git apply $P) ;;
esac
for c in "$@"; do echo "== $c"; VERIF_REPO=$D timeout 900 /verif/check $c 2>&1 | grep -E 'VIOLATION|violation|ERROR|held|Error' | cut -c1-400 || true; done
