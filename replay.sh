#!/bin/bash
# Re-executes a replay file: replay.sh <FILE>.
file=$(realpath "$1") || exit 2
cd "$(dirname "$0")/harness" || exit 2
. ./env.sh
if grep -q '"facet": "crash"' "$file"; then # no single case: run the check again
    field() { sed -n "s/.*\"$1\": \"\{0,1\}\([^,\"}]*\).*/\1/p" "$file" | head -1; }
    VERIF_SEED=$(field seed) VERIF_TIER=$(field tier) exec ../run.sh "$(field property)"
fi
cargo build --quiet --offline || exit 3
VERIF_DIR=$(realpath "$PWD/..")
export VERIF_DIR
exec ./target/debug/harness replay "$file"
