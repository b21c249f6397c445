#!/bin/bash
# Builds the program in the current directory's tree with the runtime beside
# this file and runs demo.py against it, all in a scratch directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh
unset CARGO_BUILD_TARGET RUSTFLAGS
if [ -n "$DEMO_SCRATCH" ]; then
  dir=$DEMO_SCRATCH
  mkdir -p "$dir"
  rm -rf "$dir/harness" "$dir/decimal" "$dir/repo"
else
  dir=$(mktemp -d)
  trap 'rm -rf "$dir"' EXIT
fi
mkdir -p "$dir/repo"
cp -r "$repo/programs" "$dir/repo/"
cp -r "$here/harness" "$here/decimal" "$dir/"
sed -i "s|\"/repo/|\"$dir/repo/|; s|^opt-level = .|opt-level = 0|" "$dir/harness/Cargo.toml"
find "$dir/repo" "$dir/harness/src" -name '*.rs' -exec touch {} +
cd "$dir/harness"
CARGO_TARGET_DIR=$dir/target cargo build --offline --quiet --features with-PROGRAM 2> "$dir/log" \
  || { tail -30 "$dir/log"; exit 3; }
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$here/lib python3 "$here/demo.py" "$dir/target"
