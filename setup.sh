#!/bin/bash
# Builds the checks once, offline, so that the first run of each check is quick.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
cargo build --release --offline --locked --manifest-path "$VERIF/mc/Cargo.toml" || exit 1
if [ -e "$VERIF/mc/src/bin/mc_web.rs" ]; then
    build_axum || exit 1
fi
