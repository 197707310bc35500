#!/bin/bash
# check.sh ID            run the check of one property against /repo's working tree
# check.sh replay FILE   run a replay file
# check.sh build         build the simulator only
#
# Exit 0: the property held on everything explored. Exit 1: violated, with a
# VIOLATION line. Anything else: no answer.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="${VERIF_REPO:-/repo}"
out="$here/.build"
export VERIF_DIR="$here" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
unset GOFLAGS
mkdir -p "$out/mod" || exit 3
build() {
	(
		flock 9
		set -e
		cd "$here/tools/instrument"
		GO111MODULE=off go build -o "$out/instrument" .
		"$out/instrument" "$repo" "$here/sim" "$out" >"$out/instrument.log"
		cp "$repo/go.mod" "$repo/go.sum" "$out/mod/"
		cd "$repo"
		GOFLAGS="-mod=mod -modfile=$out/mod/go.mod" go build -overlay "$out/overlay.json" -o "$out/simbin.new" ./internal/zzverif/sim
		mv "$out/simbin.new" "$out/simbin"
	) 9>"$out/lock" 2>"$out/build.log"
}
if ! build; then
	echo "ERROR: the simulator could not be built from $repo:"
	head -20 "$out/build.log"
	exit 3
fi
case "${1:-}" in
build) exit 0 ;;
replay) exec "$out/simbin" replay "$2" ;;
"") echo "usage: check.sh ID | replay FILE | build"; exit 3 ;;
*) exec "$out/simbin" check "$1" ;;
esac
