#!/bin/bash
# Exit 0 if the engine behaves as it should, non-zero otherwise.
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
O=$(mktemp)
R=$(pwd)
printf '{"Replace":{"%s/zzdemo/demo_test.go":"%s/demo_test.go","%s/zzdemo/kit_test.go":"%s/kit_test.go"}}' "$R" "$D" "$R" "$D" > "$O"
B=$(mktemp)
go test -c -vet=off -overlay "$O" -o "$B" ./zzdemo && FLOGO_LOG_LEVEL=ERROR timeout 200 "$B" -test.timeout 150s
rc=$?
rm -f "$O" "$B"
exit $rc
