#!/bin/bash
# tryseed.sh ID: confirm a planted bug in a scratch copy: applies, builds, passes the stable tests, the demonstration fails with it and passes without.
# With a second argument (the check's id), also run that check against it, and 'replay'.
set -u
id=$1; S=/verif/seeded/$id
C=/tmp/seed.$id; mkdir -p $C
for f in kit_test.go demo.sh; do cp /verif/tools/seed/$f $S/; done; chmod +x $S/demo.sh
[ -d $C/repo ] || git -C /repo worktree add -f --detach $C/repo HEAD >/dev/null 2>&1
git -C $C/repo checkout -q --detach $(git -C /repo rev-parse HEAD); git -C $C/repo checkout -q -- .
cat > $C/go.work <<W
go 1.23

use (
	$C/repo
	$C/repo/activity/subflow
)
W
cat > $C/env.sh <<W
$(sed "s#GOWORK=.*#GOWORK=$C/go.work#" /opt/vp/env.sh)
W
sed "s#/opt/vp/env.sh#$C/env.sh#" $S/demo.sh > $C/demo.run; 
run() { ( cd $C/repo; mkdir -p $C/d; cp $S/*_test.go $C/d/; cp $S/*.go $C/d/ 2>/dev/null; cp $C/demo.run $C/d/demo.sh; bash $C/d/demo.sh ); }
run > $C/base.log 2>&1; echo "base: $?"
git -C $C/repo apply --whitespace=nowarn $S/patch.diff || { echo "does not apply"; exit 1; }
( . $C/env.sh; cd $C/repo; go build ./... ./activity/subflow/... && go vet ./instance ./model/... >/dev/null 2>&1; go test -v -count=1 ./... ./activity/subflow/... 2>&1 | python3 /verif/tools/seed/stable.py )
run > $C/bug.log 2>&1; echo "with bug: $?"; grep -v '^ok\|^PASS' $C/bug.log | grep -a "demo_test\|panic" | head -5
if [ $# -gt 1 ]; then
 for c in ${2//,/ }; do VERIF_REPO=$C/repo VERIF_BUILD=/tmp/seedbuild VERIF_SECS=${3:-25} timeout 900 /verif/check $c quick 2>&1 | grep -v '^ *$' | cut -c1-400 | tail -5; echo "check $c: ${PIPESTATUS[0]}"; done
fi
