#!/bin/bash
# bash run_check.sh <property>: rebuilds the check from /repo's working tree and runs it.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
id=${1:?usage: run_check.sh <property>}
bin=$(bin_of "$id") || { echo "unknown property $id" >&2; exit 2; }
log=$(build_bin "$bin") || { echo "$log" | tail -60 >&2; echo "harness does not build" >&2; exit 2; }
if [ "$bin" = mc_web ]; then
    log=$(build_axum) || { echo "$log" | tail -60 >&2; echo "service does not build" >&2; exit 2; }
fi
cd "$VERIF" || exit 2
exec "$VERIF/target/release/$bin" "$id"
