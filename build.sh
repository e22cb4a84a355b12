#!/bin/bash
# build.sh [BIN...]: builds the simulator (all of it by default) offline.
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/sim" || exit 2
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER CARGO_TARGET_DIR
export CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
mkdir -p target
exec 9>target/.lock
flock 9
# Timestamps do not tell a changed tree apart reliably; contents do.
now=$(cd /repo && find . -path ./target -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
if [ "$now" != "$(cat target/repo.hash 2>/dev/null)" ]; then
  rm -rf "$here"/sim/target/debug/.fingerprint/narrow*
  rm -f "$here/sim/target/repo.hash"
fi
[ $# -gt 0 ] || set -- core_sim ffi_sim
bins=()
for b in "$@"; do bins+=(--bin "$b" --features "${b%_sim}"); done
cargo build --offline --locked --quiet --target-dir "$here/sim/target" "${bins[@]}" || exit 2
echo "$now" > target/repo.hash
