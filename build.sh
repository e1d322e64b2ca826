# sourced by check and setup: builds the monitor crate against /repo's current working tree
V=${V:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
export CARGO_TARGET_DIR="$V/target"
mkdir -p "$V/target"
vp_build() {
  (
    flock 9
    cd "$V/harness" || exit 1
    # do not rely on file times to notice a change in /repo or here
    stamp=$(cat $(find /repo/src /repo/Cargo.toml "$V/harness/src" "$V/harness/data" "$V/harness/Cargo.toml" "$V/harness/Cargo.lock" -type f | LC_ALL=C sort) | sha256sum)
    if [ "$stamp" != "$(cat "$V/target/vp-stamp" 2>/dev/null)" ]; then
      rm -f "$V/target/vp-stamp"
      cargo clean --offline -q -p vatsim-parser -p vp-monitor >/dev/null 2>&1
    fi
    if ! cargo build --offline --locked >"$V/target/vp-build.log" 2>&1; then
      echo "BUILD FAILED (error of the check)"; grep -E -A12 '^error' "$V/target/vp-build.log" | head -60
      exit 1
    fi
    echo "$stamp" >"$V/target/vp-stamp"
  ) 9>"$V/target/vp-lock"
}
vp_build_tsan() {
  (
    flock 9
    export RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR="$V/target-tsan" RUSTFLAGS="-Zsanitizer=thread"
    cd "$V/harness" || exit 1
    stamp=$(cat "$V/target/vp-stamp")
    if [ "$stamp" != "$(cat "$V/target-tsan/vp-stamp" 2>/dev/null)" ]; then
      rm -f "$V/target-tsan/vp-stamp"
      cargo clean --offline -q --target x86_64-unknown-linux-gnu -p vatsim-parser -p vp-monitor >/dev/null 2>&1
    fi
    timeout 600 cargo build --offline --locked -Zbuild-std --target x86_64-unknown-linux-gnu >"$V/target-tsan/vp-build.log" 2>&1 || exit 1
    echo "$stamp" >"$V/target-tsan/vp-stamp"
  ) 9>"$V/target/vp-lock"
}
mkdir -p "$V/target-tsan"
vp_build
