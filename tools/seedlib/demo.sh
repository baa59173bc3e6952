#!/bin/bash
# run in the repository: exit 0 when the property holds in the case demonstrated
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
o=$(mktemp)
echo "{\"Replace\":{\"$PWD/app/zz_demo_lib_test.go\":\"$here/lib_test.go\",\"$PWD/app/zz_demo_test.go\":\"$here/demo_test.go\"}}" > "$o"
go test -vet=off -overlay "$o" -tags testing -count=1 -run 'TestDemo$' ./app
rc=$?
rm -f "$o"
exit $rc
