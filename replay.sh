#!/bin/bash
# replay.sh FILE: repeats a recorded violation against /repo's working tree.
cd "$(dirname "$0")" || exit 2
file=$(realpath "${1:?replay file}")
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
kind=base
grep -q '^property: C13' "$file" && kind=corpus
./check.sh --setup || exit 2
exec "sim/target/$kind/debug/sim" replay "$file"
