#!/bin/bash
# tryseed.sh ID: verifies a planted bug in a scratch copy: demo passes without, fails with the patch; builds; stable tests pass; which checks fire.
id=$1; d=/verif/seeded/$id; s=/tmp/seedtry.$id
/bin/rm -rf "$s"; cp -a /repo "$s"; cd "$s" || exit 1
bash $d/demo.sh > /tmp/seedtry.$id.log 2>&1 || { echo "$id: demo FAILS on unchanged tree"; tail -20 /tmp/seedtry.$id.log; }
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
. /opt/vp/env.sh
go build ./... || echo "$id: does not build"
bash $d/demo.sh > /tmp/seedtry.$id.log 2>&1 && echo "$id: demo PASSES with patch"
if [ "$2" != fast ]; then
go test -vet=off -count=1 -p 1 -skip '^TestTextProcessor_' ./... 2>&1 | grep -v '^ok\|no test files' | head -5
fi
mkdir -p /tmp/v.$id; cp /verif/known_findings.jsonl /tmp/v.$id/ 2>/dev/null
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
/verif/analyzer/bin/sdcheck -repo "$s" -verif /tmp/v.$id -property $p > /tmp/seedtry.$id.chk 2>&1; rc=$?
echo "$id ($p): check rc=$rc"; grep -m3 '^\[' /tmp/seedtry.$id.chk
/bin/rm -rf "$s" /tmp/v.$id
