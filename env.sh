# Sourced by check and setup: offline toolchain for the harness.
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2022-11-14
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
KMON_TARGET=${KMON_TARGET:-/verif/target}
export CARGO_TARGET_DIR=$KMON_TARGET
export RUSTFLAGS="--cfg kogarashi_verif -Awarnings"
OFFLINE=(--offline
  --config 'source.crates-io.replace-with="vp-vendor"'
  --config 'source.vp-vendor.directory="/opt/vp/vendor"')
build() { (cd harness && cargo build --release --locked "$@" "${OFFLINE[@]}"); }
build_nostd() { (cd nostd && cargo build --release --locked "${OFFLINE[@]}"); }
build_pallet() { (cd pallet && cargo build --release --locked "${OFFLINE[@]}"); }
# A newer compiler with sanitizers; thread sanitizer also instruments the standard library, from the toolchain's sources.
SAN_TRIPLE=x86_64-unknown-linux-gnu
build_san() { # address sanitizer, overflow checks, debug assertions: everything
  (cd harness && RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=$CARGO_TARGET_DIR/san \
    RUSTFLAGS="$RUSTFLAGS -Zsanitizer=address -Cunsafe-allow-abi-mismatch=sanitizer" \
    cargo build --profile san --locked --target $SAN_TRIPLE --bins "${OFFLINE[@]}")
}
build_tsan() { # p24
  local std d
  std=$(RUSTUP_TOOLCHAIN=nightly rustc --print sysroot)/lib/rustlib/src/rust/library/vendor
  mkdir -p "$CARGO_TARGET_DIR/vendor-std" || return 1
  for d in /opt/vp/vendor/* "$std"/*; do
    [ -e "$CARGO_TARGET_DIR/vendor-std/${d##*/}" ] || ln -s "$d" "$CARGO_TARGET_DIR/vendor-std/${d##*/}"
  done
  (cd harness && RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="$RUSTFLAGS -Zsanitizer=thread" \
    cargo build -Zbuild-std --release --locked --target $SAN_TRIPLE --bin p24 --offline --target-dir "$CARGO_TARGET_DIR/tsan" \
    --config 'source.crates-io.replace-with="vp-vendor"' --config "source.vp-vendor.directory=\"$CARGO_TARGET_DIR/vendor-std\"")
}
without_hooks() { export RUSTFLAGS="-Awarnings" CARGO_TARGET_DIR=$KMON_TARGET/nohook; }
