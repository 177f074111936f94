#!/bin/bash
# check.sh <property> [quick|thorough]: analyse /repo's current source.
# exit 0: the property holds; exit 1: a VIOLATION line was printed.
id=$1
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
mkdir -p "$here/evidence"
bad() {
	echo "$2" >"$here/evidence/$id.violation.txt"
	cat "$here/evidence/$id.violation.txt"
	echo "VIOLATION property=$id replay=$here/evidence/$id.violation.txt"
	exit 1
}
bin=$("$here/build.sh") || bad "$id" "the checker did not build: $bin"
"$bin" -prop "$id" -repo "$repo" -verif "$here" -evidence "$here/evidence" -tier "$tier" -seed "${VERIF_SEED:-1}"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
	bad "$id" "undecided: the checker ended with status $rc"
fi
exit $rc
