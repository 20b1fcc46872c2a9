#!/bin/bash
# replay.sh FILE: runs the case of a replay file again.
here="$(cd "$(dirname "$0")" && pwd)"
export OSUVERIF_DIR="$here"
file="$(realpath "${1:?replay file}")"
"$here/build.sh" || exit 2
exec "$here/harness/target/release/osuverif" replay "$file"
