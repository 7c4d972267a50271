#!/bin/bash
# Usage: check.sh <property>. Builds the analyzer if needed and decides one property on /repo's working tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
export HOME="${HOME:-/root}"
fail() {
	mkdir -p "$here/evidence"
	printf '%s\n' "$1" > "$here/evidence/$prop.violations.txt"
	echo "$1"
	echo "VIOLATION property=$prop replay=$here/evidence/$prop.violations.txt"
	exit 1
}
bin="$here/analyzer/bin/sdcheck"
stale=0
[ -x "$bin" ] || stale=1
if [ $stale = 0 ]; then
	for f in "$here"/analyzer/*.go "$here"/analyzer/go.mod; do
		[ "$f" -nt "$bin" ] && stale=1
	done
fi
if [ $stale = 1 ]; then
	(cd "$here/analyzer" && mkdir -p bin && flock bin/.lock go build -o bin/sdcheck.$$ . && mv bin/sdcheck.$$ bin/sdcheck) || fail "the analyzer cannot be built"
fi
[ "$prop" = build ] && exit 0
"$bin" -repo /repo -verif "$here" -property "$prop"
rc=$?
[ $rc = 0 ] && exit 0
[ $rc = 1 ] && exit 1
fail "the analyzer ended with code $rc: the property is undecided"
