#!/bin/bash
# run.sh ID quick|thorough   check one property against /repo's working tree
# run.sh replay FILE         run one recorded execution again
# run.sh build [DIR]         build the check binaries (into DIR)
set -u
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$V
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
R=${VERIF_REPO:-/repo}

B=$(mktemp -d /tmp/verif-build-XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT

overlay() { # the harness appears inside the module, so that it can import internal packages
	( cd "$V/mc" && find . -name '*.go' | sort ) | awk -v v="$V/mc" -v r="$R/internal/zzverif" '
		BEGIN { print "{\"Replace\": {" }
		{ p = substr($0, 2); printf "%s\"%s%s\": \"%s%s\"\n", (NR > 1 ? "," : ""), r, p, v, p }
		END { print "}}" }' >"$B/overlay.json"
}

build() { # build NAME: builds cmd/NAME
	overlay
	if ! ( cd "$R" && go build -buildvcs=false -overlay "$B/overlay.json" -o "$B/$1" "./internal/zzverif/cmd/$1" ) >"$B/build.log" 2>&1; then
		echo "CHECK-ERROR: the check does not build against /repo:"
		head -50 "$B/build.log"
		exit 2
	fi
}

binary_of() {
	case "$1" in
	C18) echo sched ;;
	*) echo core ;;
	esac
}

case "${1:-}" in
build)
	build core
	[ -n "${2:-}" ] && cp "$B/core" "$2/"
	if [ -d "$V/mc/cmd/sched" ]; then
		VERIF_BUILD_DIR=$B bash "$V/sched.sh" build "${2:-}" || exit 2
	fi
	exit 0
	;;
replay)
	id=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
	f=$(realpath "$2")
	if [ "$(binary_of "$id")" = sched ]; then
		VERIF_BUILD_DIR=$B bash "$V/sched.sh" replay "$f"
		exit $?
	fi
	build core
	cd "$B" && "$B/core" replay "$f" "$B/journal"
	exit $?
	;;
C[0-9]*)
	tier=${2:-${VERIF_TIER:-quick}}
	if [ "$(binary_of "$1")" = sched ]; then
		VERIF_BUILD_DIR=$B bash "$V/sched.sh" check "$1" "$tier"
		exit $?
	fi
	build core
	cd "$B" && "$B/core" check "$1" "$tier"
	exit $?
	;;
*)
	echo "usage: run.sh ID quick|thorough | replay FILE | build [DIR]" >&2
	exit 2
	;;
esac
