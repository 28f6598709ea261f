#!/bin/bash
# check.sh Pnn: decides one property on /repo's current working tree (VERIF_SEED, VERIF_TIER)
V="$(cd "$(dirname "$0")" && pwd)"
"$V/build.sh" || exit $?
exec "$V/target/release/cysim" check --prop "$1" --root "$V"
