# Sourced by check.sh and setup.sh. Builds from /repo's working tree into
# $VERIF_DIR/target only, with the hooks on. Where the tree does not build with
# the hooks (a refactoring moved what they export) the checks that need no
# private items run on a build without them.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=

build() {
  mkdir -p "$VERIF_DIR/target"
  local log=$VERIF_DIR/target/build.log
  if (cd harness && RUSTFLAGS="--cfg wruster_verif" CARGO_TARGET_DIR=$VERIF_DIR/target/hooked cargo build --release --offline >"$log" 2>&1); then
    VH=$VERIF_DIR/target/hooked/release/vh
  elif (cd harness && RUSTFLAGS="" CARGO_TARGET_DIR=$VERIF_DIR/target/plain cargo build --release --offline >>"$log" 2>&1); then
    echo "built without the hooks"
    VH=$VERIF_DIR/target/plain/release/vh
  else
    echo "the build failed:"; tail -40 "$log"
    return 1
  fi
}

# The programs of the workspace, for the checks that run them.
build_bin() {
  local log=$VERIF_DIR/target/build-$1.log
  if ! cargo build --manifest-path /repo/Cargo.toml -p "$1" --offline --release --target-dir "$VERIF_DIR/target/bins" >"$log" 2>&1; then
    echo "the build of $1 failed:"; tail -40 "$log"
    return 1
  fi
}
