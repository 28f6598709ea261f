#!/bin/bash
# replay.sh FILE: executes a replay file; exit 1 if it still fails the same way
V="$(cd "$(dirname "$0")" && pwd)"
"$V/build.sh" || exit $?
"$V/target/release/cysim" replay "$1" >/dev/null
rc=$?
[ $rc = 1 ] && echo "reproduced" || echo "not reproduced"
exit $rc
