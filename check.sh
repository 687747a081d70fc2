#!/bin/bash
# check.sh setup | run <property> [quick|thorough] [family] | replay <file>
# Builds the harness and the cambrian binary from /repo's working tree, offline, and runs a check.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
export VERIF_DIR="$here"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=1
export PATH="$HOME/.cargo/bin:$PATH"
unset RUSTFLAGS CARGO_TARGET_DIR RUST_LOG
mkdir -p target
build() {
  (
    flock 9
    # Cargo goes by mtime and misses a file put back with an old one: always recompile cambrian.
    rm -rf "$here"/target/debug/.fingerprint/cambrian-* "$here"/target/cli/debug/.fingerprint/cambrian-*
    rustc --edition 2021 --crate-type cdylib -O -C panic=abort -o "$here/target/elsewhere.so" "$here/harness/shim/elsewhere.rs" || exit
    # harness/.cargo/config.toml sets --cfg tokio_unstable (a seeded runtime); cargo finds it from the cwd.
    (cd "$here/harness" && cargo build -q --offline --target-dir "$here/target") &&
      (cd /repo && CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_STRIP=symbols cargo build -q --offline --bin cambrian --target-dir "$here/target/cli")
  ) 9>"$here/target/.lock"
}
build_fuzz() {
  (
    flock 9
    rm -rf "$here"/target/fuzz/x86_64-unknown-linux-gnu/release/.fingerprint/cambrian-*
    RUSTFLAGS="--cfg tokio_unstable" cargo fuzz build --fuzz-dir "$here/fuzz" --target-dir "$here/target/fuzz" -s none -O tape
  ) 9>"$here/target/.lock"
}
log=$(mktemp)
if ! build >"$log" 2>&1; then
  cat "$log" >&2
  rm -f "$log"
  echo "ERROR of the check: the build failed" >&2
  exit 2
fi
if [ "$1" = run ] && { [ "$3" = thorough ] || [ -n "$VH_GUIDED" ]; } && ! build_fuzz >"$log" 2>&1; then
  cat "$log" >&2
  rm -f "$log"
  echo "ERROR of the check: the build of the fuzz target failed" >&2
  exit 2
fi
rm -f "$log"
case "$1" in
  setup) exit 0 ;;
  run | replay) exec "$here/target/debug/vh" "$@" ;;
  *) echo "usage: check.sh setup | run <property> [quick|thorough] [family] | replay <file>" >&2; exit 2 ;;
esac
