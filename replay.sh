#!/bin/bash
# bash replay.sh <replay file>: runs the one execution a VIOLATION line points at, verbosely.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
file=$(realpath "${1:?usage: replay.sh <file>}")
id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$file")
bin=$(bin_of "$id") || exit 2
build_bin "$bin" || exit 2
[ "$bin" != mc_web ] || build_axum || exit 2
exec "$VERIF/target/release/$bin" --replay "$file"
