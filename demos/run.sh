#!/bin/bash
# run the demonstrations of the repaired defects against /repo: run.sh [-run REGEXP]
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
echo "{\"Replace\":{\"/repo/zz_harness_test.go\":\"$d/harness_test.go\",\"/repo/zz_fixes_test.go\":\"$d/fixes_test.go\",\"/repo/actor/zz_fixes_test.go\":\"$d/actor_fixes_test.go\"}}" > "$t/o.json"
cd /repo && go test -vet=off -count=1 -timeout 120s -overlay "$t/o.json" "$@" . ./actor
