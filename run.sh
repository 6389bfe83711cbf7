#!/bin/bash
# run.sh PROPERTY [quick|thorough]   decide one property of /repo's current tree
# run.sh replay FILE                 run a saved violation again, natively
# run.sh setup                       see that the machinery builds
set -u
V=$(cd "$(dirname "$0")" && pwd)
R=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
D=$(mktemp -d) || exit 0
trap '/bin/rm -rf "$D"' EXIT
if ! (cd "$V/engine" && go build -o "$D/gosym" .); then
	echo "run.sh: the engine does not build" >&2
	exit 2
fi
case "${1:-}" in
setup) "$D/gosym" list >/dev/null && echo "engine builds" ;;
replay) "$D/gosym" replay "$2" ;;
*) "$D/gosym" check -prop "$1" -tier "${2:-quick}" -verif "$V" -repo "$R" ;;
esac
