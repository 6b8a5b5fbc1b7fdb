# sourced: builds both profiles of the simulator (offline), returns non-zero when it cannot
export HOME=${HOME:-/root}
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$ROOT/sim/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR"
# content hash of the code under test: never trust modification times only
HASH=$( (cd /repo && cat Cargo.toml && find src -type f | LC_ALL=C sort | while read -r f; do echo "$f"; cat "$f"; done) | sha256sum | cut -d' ' -f1)
build_one() {
  if [ "$(cat "$ROOT/sim/target/hash-$1" 2>/dev/null)" != "$HASH" ]; then
    for d in "$ROOT/sim/target/build-$1/$1/.fingerprint"/chronologic-*; do [ -d "$d" ] && rm -rf "$d"; done
  fi
  ( cd "$ROOT/sim" && CARGO_TARGET_DIR="$ROOT/sim/target/build-$1" cargo build --offline --locked --quiet --profile "$1" ) >"$ROOT/sim/target/build-$1.log" 2>&1 \
    && mkdir -p "$ROOT/sim/target/$1" && cp -f "$ROOT/sim/target/build-$1/$1/chronosim" "$ROOT/sim/target/$1/chronosim.new.$$" && mv -f "$ROOT/sim/target/$1/chronosim.new.$$" "$ROOT/sim/target/$1/chronosim" \
    && echo "$HASH" > "$ROOT/sim/target/hash-$1"
}
build_one checked & b1=$!
build_one release & b2=$!
ok=0
wait $b1 || { ok=1; echo "building the simulator (checked) failed:"; tail -40 "$ROOT/sim/target/build-checked.log"; }
wait $b2 || { ok=1; echo "building the simulator (release) failed:"; tail -40 "$ROOT/sim/target/build-release.log"; }
[ $ok = 0 ]
