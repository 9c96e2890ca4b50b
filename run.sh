#!/bin/bash
# run.sh ID            runs one check (VERIF_TIER=quick|thorough, VERIF_SEED)
# run.sh replay FILE   replays a recorded violation
# run.sh setup         builds everything
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUSTFLAGS="--cfg sia_verif" RUST_BACKTRACE=0
export CARGO_TARGET_DIR="$PWD/target"
build() { # build FEATURES SUBDIR
  CARGO_TARGET_DIR="$PWD/target/$2" cargo build --release --offline --locked -q --manifest-path mc/Cargo.toml $1 >"$PWD/target/build-$2.log" 2>&1 || {
    tail -40 "$PWD/target/build-$2.log"; echo "ERROR: the checks do not build"; exit 2; }
}
cli() { # the command line tool itself, and the shim which injects faults into it
  CARGO_TARGET_DIR="$PWD/target/cli" cargo build --release --offline --locked -q --manifest-path /repo/lib/sia/rust/cli/Cargo.toml >target/build-cli.log 2>&1 &&
  gcc -O1 -shared -fPIC -o target/faultshim.so tools/faultshim.c -ldl >>target/build-cli.log 2>&1 || {
    tail -40 target/build-cli.log; echo "ERROR: the command line tool does not build"; exit 2; }
}
mkdir -p target
case "$1" in
  setup) build "" core; build "--features img" img; build "--features web" web; cli; RUSTC_WRAPPER="$PWD/tools/rustc-instrument.sh" build "--features img" conc; exit 0 ;;
  replay) id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2 ;;
  *) id="$1" ;;
esac
case "$id" in
  C26|C31) exec node web/front/check.mjs "$@" ;;
  C01|C02|C03|C04|C05|C06|C07|C08|C09|C11|C12|C13|C14|C15|C16|C17|C18|C29|C32) build "" core; bin=target/core/release/siamc ;;
  C28) RUSTC_WRAPPER="$PWD/tools/rustc-instrument.sh" build "--features img" conc; bin=target/conc/release/siamc ;;
  C25) build "--features web" web; bin=target/web/release/siamc ;;
  C24|C30) build "--features img" img; build "--features web" web; cli; bin=target/img/release/siamc ;;
  *) build "--features img" img; bin=target/img/release/siamc ;;
esac
exec "$bin" "$@"
