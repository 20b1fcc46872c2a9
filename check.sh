#!/bin/bash
# check.sh ID [thorough]: decides the property on /repo's working tree.
# Exit 0: it held on everything explored, 1: VIOLATION line on stdout, 2: the check couldn't be made.
here="$(cd "$(dirname "$0")" && pwd)"
id="${1:?property id}"
[ "${2:-}" = thorough ] && export VERIF_TIER=thorough
export OSUVERIF_DIR="$here"
"$here/build.sh" || exit 2
# a case that takes all memory ends the worker and not the sandbox
ulimit -v $((16 * 1024 * 1024)) 2>/dev/null
ulimit -c 0 2>/dev/null
cd "$here" || exit 2
exec "$here/harness/target/release/osuverif" check "$id"
