#!/bin/bash
# Builds the harness from /repo's working tree. Everything is written to /verif/harness/target.
set -u
cd "$(dirname "$0")/harness" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET 2>/dev/null
mkdir -p target
# cargo goes by modification times, a tree that's been swapped for another one is found by its content
now=$(cd /repo && { find src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | sha256sum)
(
  flock 9
  if [ "$(cat target/repo.sum 2>/dev/null)" != "$now" ]; then
    rm -f target/repo.sum
    for dir in target target/cov; do
      if [ -d $dir/release ]; then
        cargo clean --release --offline -p osu-file-parser --target-dir $dir >/dev/null 2>&1
      fi
    done
  fi
  # the same with counters in the crate, for the coverage-guided searches
  RUSTC_WRAPPER="$PWD/../tools/rustc-cov.sh" cargo build --release --offline --locked --target-dir target/cov >target/build-cov.log 2>&1 &
  if ! cargo build --release --offline --locked >target/build.log 2>&1; then
    tail -50 target/build.log >&2
    echo "the harness doesn't build" >&2
    exit 2
  fi
  if ! wait $!; then
    # the random cases are run without it
    tail -5 target/build-cov.log >&2
    rm -f target/cov/release/osuverif
  fi
  echo "$now" > target/repo.sum
) 9>target/lock
