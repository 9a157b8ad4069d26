#!/bin/bash
# sched.sh build [DIR] | check ID TIER | replay FILE: the check of concurrent
# use. run.sh calls it with its environment and VERIF_BUILD_DIR set.
set -u
V=$VERIF_DIR
R=${VERIF_REPO:-/repo}
B=$VERIF_BUILD_DIR

harness() { ( cd "$V/mc" && find . -name '*.go' | sort ) | awk -v v="$V/mc" -v r="$R/internal/zzverif" '
	{ p = substr($0, 2); printf "\"%s%s\": \"%s%s\",\n", r, p, v, p }'; }
end="\"$R/internal/zzverif/none\": \"\"}}"

fail() {
	echo "CHECK-ERROR: the check does not build against /repo:"
	head -50 "$B/build.log"
	exit 2
}

mkdir -p "$B/instr"
{ echo '{"Replace": {'; harness; echo "$end"; } >"$B/overlay.json"
( cd "$R" && go build -buildvcs=false -overlay "$B/overlay.json" -o "$B/instrument" ./internal/zzverif/cmd/instr ) >"$B/build.log" 2>&1 || fail
pkgs=$(find "$R" -name '*.go' ! -name '*_test.go' ! -path '*/testing/*' ! -path '*/testdata/*' ! -path '*/zzverif/*' ! -path '*/.git/*' -printf '%h\n' | sort -u)
# shellcheck disable=SC2086
"$B/instrument" "$B/instr" $pkgs >"$B/lines" 2>"$B/build.log" || fail
"$B/instrument" pool "$B/pool.go" 3000 2>"$B/build.log" || fail
{ echo '{"Replace": {'; harness; cat "$B/lines"; echo "\"$R/internal/zzverif/cmd/sched/pool_gen.go\": \"$B/pool.go\","; echo "$end"; } >"$B/overlay2.json"
( cd "$R" && go build -race -gcflags=all=-d=checkptr=0 -buildvcs=false -overlay "$B/overlay2.json" -o "$B/sched" ./internal/zzverif/cmd/sched ) >"$B/build.log" 2>&1 || fail

export GORACE="halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0"
case "$1" in
build) [ -z "${2:-}" ] || cp "$B/sched" "$2/" ;;
check)
	[ "$3" != thorough ] || export VERIF_BUDGET_S="${VERIF_BUDGET_S:-600}" # leaves time for what was begun
	cd "$B" && "$B/sched" check "$2" "$3" ;;
replay) cd "$B" && "$B/sched" replay "$2" "$B/journal" ;;
esac
