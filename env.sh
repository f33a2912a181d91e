# Sourced by the scripts of this directory.
export HOME="${HOME:-/root}"
export PATH="$PATH:/usr/local/bin:/root/.cargo/bin"
# The locked time 0.3.20 does not compile with rustc 1.80 or newer.
export RUSTUP_TOOLCHAIN=1.79.0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export MC_VERIF=$VERIF
export CARGO_TARGET_DIR=$VERIF/target
bin_of() {
    case $1 in
        C01|C02|C03|C04|C07) echo mc_trade ;;
        C05|C06) echo mc_exits ;;
        C08|C25|C26|C27|C28) echo mc_values ;;
        C09|C10|C11) echo mc_indic ;;
        C12|C13|C14) echo mc_strat ;;
        C15|C16|C17) echo mc_stats ;;
        C18|C19|C20|C21|C22|C23|C24) echo mc_ga ;;
        C36) echo mc_params ;;
        C29|C30|C31|C34|C35) echo mc_web ;;
        C32) echo mc_json ;;
        C33) echo mc_client ;;
        *) return 1 ;;
    esac
}
build_bin() {
    cargo build --release --offline --locked --manifest-path "$VERIF/mc/Cargo.toml" --bin "$1" -q 2>&1
}
build_axum() {
    cargo build --release --offline --locked --manifest-path /repo/juno_axum/Cargo.toml \
        --target-dir "$VERIF/target/axum" -q 2>&1
}
