#!/bin/bash
# check.sh ID: decides one property on /repo's working tree.
# check.sh replay FILE: repeats a reported violation.
# VERIF_SEED and VERIF_TIER (quick, thorough) as in MANIFEST.json; VERIF_CASES overrides the number
# of cases.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
build_harness || exit 2
if [ "$1" = C17 ] || { [ "$1" = replay ] && [[ $2 == *C17* ]]; }; then
    build_cli || exit 2
fi
case $1 in
    C15 | C19) build_dev || exit 2 ;;
    replay) grep -qE '^property=C(15|19)$' "$2" && { build_dev || exit 2; } ;;
esac
case $1 in
    replay) exec "$CARGO_TARGET_DIR/release/harness" replay "$2" ;;
    *) exec "$CARGO_TARGET_DIR/release/harness" check "$1" ;;
esac
