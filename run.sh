#!/bin/bash
# Builds the harness against /repo's working tree and runs the check of one
# property: run.sh <PROPERTY>. Honours VERIF_SEED and VERIF_TIER.
cd "$(dirname "$0")/harness" || exit 2
. ./env.sh
# Cargo goes by times of modification, which don't tell a tree that was put in
# place of another one: build anew whatever has a different content.
repo=$(sed -n 's|.*path = "\(.*\)/paladin-core".*|\1|p' Cargo.toml)
sum=$(cd "$repo" && find . \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 |
    LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat target/repo.sum 2>/dev/null)" != "$sum" ]; then
    cargo clean --quiet --offline -p paladin-core -p paladin-opkind-derive 2>/dev/null
    mkdir -p target && echo "$sum" >target/repo.sum
fi
if ! cargo build --quiet --offline 2>build.log; then
    tail -40 build.log >&2
    # The hooks in /repo may not fit its code any more: do without.
    echo "the harness does not build with the hooks in /repo" >&2
    export RUSTFLAGS="--cfg tokio_unstable"
    if ! cargo build --quiet --offline 2>build.log; then
        tail -40 build.log >&2
        echo "ERROR: the harness does not build against /repo" >&2
        exit 3
    fi
fi
if [ "$1" = build ]; then exit 0; fi
VERIF_DIR=$(realpath "$PWD/..")
export VERIF_DIR
./target/debug/harness check "$1"
code=$?
case $code in
134 | 139) # aborted, or an invalid access: nothing that safe code may do
    replay=$VERIF_DIR/replays/$1-crash.json
    mkdir -p "${replay%/*}"
    echo "{\"property\": \"$1\", \"facet\": \"crash\", \"seed\": ${VERIF_SEED:-1}, \"tier\": \"${VERIF_TIER:-quick}\", \"reason\": \"the process crashed with status $code\"}" >"$replay"
    echo "VIOLATION property=$1 replay=$replay"
    exit 1
    ;;
esac
exit $code
