#!/bin/bash
# run.sh setup | check PROPERTY | replay FILE
# Builds the simulator against the current working tree of the repository and runs it.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
export PATH=$HOME/.cargo/bin:/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS RUSTDOCFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
target=$here/target
mkdir -p "$target/run" || exit 2
exe=$target/run/sim.$$
trap 'rm -f "$exe"' EXIT

build() {
    # cargo goes by mtime; without fingerprints the crates are always rebuilt from what is there now
    rm -rf "$target"/release/.fingerprint/cyphus-diffeq-* "$target"/release/.fingerprint/sim-*
    cargo build --release --offline --quiet --manifest-path "$here/sim/Cargo.toml" --target-dir "$target" 2>"$target/build.log.$$"
    local rc=$?
    if [ $rc -ne 0 ]; then cat "$target/build.log.$$" >&2; fi
    rm -f "$target/build.log.$$"
    [ $rc -eq 0 ] && cp "$target/release/sim" "$exe"
}
exec 9>"$target/lock"
flock 9
build || { echo "build failed" >&2; exit 2; }
flock -u 9

case "$1" in
    setup) ;;
    check)
        "$exe" check "$2" --seed "${VERIF_SEED:-1}" --evidence "$here/evidence" --replays "$here/replays"
        ;;
    replay) "$exe" replay "$2" ;;
    *) echo "usage: run.sh setup | check PROPERTY | replay FILE" >&2; exit 2 ;;
esac
