#!/bin/bash
# dump.sh CRATE OUT.json [off]: MIR of the opaque crate in CRATE against /repo's current tree, with debug assertions or
# without, as a release build would have it (overflow is looked at in both).
set -e
H=$(cd "$(dirname "$0")" && pwd)
B=$(realpath "$H/..")/.build/mir; mkdir -p "$B"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly
SR=$(rustc --print sysroot)
if [ ! "$B/mirdump" -nt "$H/driver/main.rs" ]; then
    rustc --edition 2021 -O "$H/driver/main.rs" -o "$B/mirdump.new" && mv "$B/mirdump.new" "$B/mirdump"
fi
touch "$1/src/lib.rs"
T="$B/t"; FLAGS="-Zmir-opt-level=0 -Zalways-encode-mir"
if [ "$3" = off ]; then T="$B/t-off"; FLAGS="$FLAGS -Cdebug-assertions=off -Coverflow-checks=on"; fi
cd "$1"
RUSTFLAGS="$FLAGS" RUSTC_WORKSPACE_WRAPPER="$B/mirdump" LD_LIBRARY_PATH="$SR/lib" MIRDUMP_OUT="$2" \
  cargo check --quiet --offline --target-dir "$T"
