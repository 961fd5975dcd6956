#!/bin/bash
# run.sh build | check <property> | replay <file>
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_TARGET_DIR="$VERIF_DIR/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTFLAGS="--cap-lints warn"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
export SIM_PLAIN_EXE="$CARGO_TARGET_DIR/plain/sim"
build() {
  if ! out=$(cargo build --offline --quiet --manifest-path sim/Cargo.toml "$@" 2>&1); then
    echo "$out" | tail -60 >&2
    exit 2
  fi
}
build --release
# the loads of C05 are also made in a build without optimisation, where recursion uses up the stack
case "$1 $2" in
  build*|"check C05"|replay*C05*) SIM_PLAIN=1 build --profile plain ;;
esac
case "$1" in
  build) exit 0 ;;
  *) exec target/release/sim "$@" ;;
esac
