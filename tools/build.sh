#!/bin/bash
# Rebuild the checker when /repo's sources changed. Cargo judges freshness by mtime, so the
# library's fingerprints are dropped whenever the content differs from the last build.
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
build_mc() {
  local T=/verif/target
  mkdir -p $T || return 2
  exec 9>$T/.lock
  flock 9
  local h
  h=$( (cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum; cd /verif/mc && find src Cargo.toml Cargo.lock -type f | LC_ALL=C sort | xargs sha256sum) | sha256sum | cut -d' ' -f1)
  if [ -x $T/release/mc ] && [ "$(cat $T/.stamp 2>/dev/null)" = "$h" ]; then
    flock -u 9
    return 0
  fi
  rm -f /verif/target/.stamp
  rm -rf /verif/target/release/.fingerprint/box2d-rs-* /verif/target/release/.fingerprint/mc-*
  if ! cargo build --release --offline --quiet --manifest-path /verif/mc/Cargo.toml --target-dir $T >$T/build.log 2>&1; then
    cat $T/build.log >&2
    flock -u 9
    return 2
  fi
  echo "$h" > $T/.stamp
  flock -u 9
  return 0
}
build_mc
