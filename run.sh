#!/bin/bash
# run.sh PROPERTY       explore PROPERTY by simulation (VERIF_SEED, VERIF_TIER)
# run.sh --replay FILE  execute a replay file again
# run.sh --build        build only
# Exit status: 0 held, 1 violated, anything else: the check itself failed.
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
. /opt/vp/env.sh || exit 2
build=$here/.build
mkdir -p "$build/bin" || exit 2
make() {
	exec 9>"$build/lock" && flock 9 || return 2
	(cd "$here/tools/instrument" && go build -trimpath -o "$build/bin/instrument" .) || return 2
	for k in $1; do
		"$build/bin/instrument" $([ $k = simcheck-races ] && echo -race) -repo "$repo" -sim "$here/sim" -out "$build/w-$k" >"$build/instrument.log" 2>&1 || { cat "$build/instrument.log" >&2; return 2; }
		(cd "$build/w-$k" && go build -trimpath -o "$build/bin/$k" ./cmd/simcheck) || return 2
	done
	exec 9>&-
}
# Data races are found by a build of their own, in which accesses of shared memory are reported to the simulation.
exe=simcheck
case "$1" in
--build) exe="simcheck simcheck-races" ;;
--replay) grep -q '"property": *"C25"' "$2" && exe=simcheck-races ;;
C25) exe=simcheck-races ;;
esac
if ! make "$exe"; then
	echo "run.sh: the build failed" >&2
	exit 2
fi
case "$1" in
--build)
	exit 0
	;;
--replay)
	exec "$build/bin/$exe" -mode replay -in "$2" -log -verif "$here"
	;;
C[0-9][0-9])
	tier=${VERIF_TIER:-quick}
	case "$tier" in
	thorough) seconds=600 runs=0 ;;
	*) tier=quick seconds=120 runs=$(sed -n "s/^$1 //p" "$here/tools/cases.txt") ;;
	esac
	exec "$build/bin/$exe" -mode check -prop "$1" -tier "$tier" -seed "${VERIF_SEED:-1}" -seconds "${VERIF_SECONDS:-$seconds}" -runs "${VERIF_RUNS:-${runs:-0}}" -verif "$here"
	;;
*)
	echo "usage: run.sh PROPERTY | --replay FILE | --build" >&2
	exit 2
	;;
esac
