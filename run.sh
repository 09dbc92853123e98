#!/bin/bash
# run.sh check ID | run.sh replay FILE | run.sh setup
# Builds the harness against the current tree of /repo and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
work="$(mktemp -d "${TMPDIR:-/tmp}/verif-run.XXXXXX")" || exit 2
trap 'rm -rf -- "$work"' EXIT
if ! (cd "$here/harness" && go build -o "$work/harness" .) >"$work/build.log" 2>&1; then
	echo "ERROR: the harness does not build against /repo" >&2
	tail -n 40 "$work/build.log" >&2
	exit 2
fi
# The race detector needs a C compiler. Without one the checks do without it.
race() {
	if (cd "$here/harness" && CGO_ENABLED=1 go build -race -o "$work/harness-race" .) >"$work/race.log" 2>&1; then
		export VERIF_RACE_BIN="$work/harness-race"
	else
		export VERIF_RACE_WHY="$(tail -n 1 "$work/race.log")"
	fi
}
mkdir -p "$work/tmp"
export TMPDIR="$work/tmp"
case "$1" in
setup) race ;;
check)
	shift
	case "$1" in C05 | C33 | C34 | C35 | C40 | C41) race ;; esac
	"$work/harness" check -verif "$here" "$@"
	;;
*) "$work/harness" "$@" ;;
esac
exit $?
