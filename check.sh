#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the simulator against /repo's
# working tree and decides one property. Exit 0: held on everything explored;
# 1: a VIOLATION line was printed; anything else: the check itself failed.
# check.sh --setup: only builds.
set -u
cd "$(dirname "$0")" || exit 2
here=$PWD
repo=$(realpath ../repo)
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
unset RUSTC_WRAPPER RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_INCREMENTAL CARGO_BUILD_TARGET CARGO_PROFILE_DEV_DEBUG 2>/dev/null

# build base|corpus: prints the log on failure.
build() {
  local kind=$1 feats=()
  [ "$kind" = corpus ] && feats=(--features corpus)
  export CARGO_TARGET_DIR=$here/sim/target/$kind
  mkdir -p "$CARGO_TARGET_DIR" || return 2
  # Cargo goes by file times; the content is what counts.
  local now
  now=$(cd "$repo" && find . \( -name .git -o -name target \) -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$now" != "$(cat "$CARGO_TARGET_DIR/repo.sum" 2>/dev/null)" ]; then
    rm -f "$CARGO_TARGET_DIR/repo.sum"
    (cd sim && cargo --offline clean -q -p stylish -p stylish-core -p stylish-ansi -p stylish-html -p stylish-plain -p stylish-macros -p stylish-style >/dev/null 2>&1)
  fi
  (cd sim && cargo --offline build --locked -q "${feats[@]}") >"$CARGO_TARGET_DIR/build.log" 2>&1 || return 1
  echo "$now" >"$CARGO_TARGET_DIR/repo.sum"
}

if [ "${1:-}" = --setup ]; then
  for k in base corpus; do
    build $k || { cat "sim/target/$k/build.log"; exit 1; }
  done
  exit 0
fi

prop=${1:?property}
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
kind=base
[ "$prop" = C13 ] && kind=corpus

if ! build $kind; then
  log=$CARGO_TARGET_DIR/build.log
  # Does stylish itself build? Then documented usage no longer does.
  if (cd "$repo" && CARGO_TARGET_DIR=$here/sim/target/probe cargo --offline build -q -p stylish --all-features >/dev/null 2>&1); then
    case $prop in
      C10|C13|C14)
        mkdir -p replay evidence
        { echo "property: $prop"; echo "documented usage of the public API no longer compiles:"; cat "$log"; } >"replay/$prop-build.txt"
        echo "{\"property\": \"$prop\", \"tier\": \"$tier\", \"seed\": $seed, \"level\": \"exploration\", \"coverage\": {\"evaluations\": 0, \"distinct_nontrivial\": 0, \"rule\": \"the simulator's use of the public API did not compile\", \"samples\": []}, \"wall_s\": $SECONDS, \"violations\": 1}" >"evidence/$prop.json"
        head -20 "$log"
        echo "VIOLATION property=$prop replay=$here/replay/$prop-build.txt"
        exit 1;;
    esac
  fi
  echo "error: the simulator does not build against $repo" >&2
  cat "$log" >&2
  exit 2
fi
# An operation that never ends must not take the machine with it.
if [ "$tier" = thorough ]; then ulimit -v 12000000; else ulimit -v 4000000; fi
exec "sim/target/$kind/debug/sim" check --property "$prop" --tier "$tier" --seed "$seed" --evidence evidence --replay replay
