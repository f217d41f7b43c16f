#!/bin/bash
# build.sh [debug|deep]: builds the simulator, unoptimised or optimised (slower to build, faster to run; it behaves the same), against /repo's current working tree. Content decides what is rebuilt, not file times.
set -e
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/harness"
kind=${1:-debug}
profile=dev; [ $kind = deep ] && profile=deep
mkdir -p target
exec 9>target/.lock
flock 9
sum=$( { find /repo/src src core worlds .cargo -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum /repo/Cargo.toml Cargo.toml Cargo.lock; cargo --version; } | sha256sum | cut -d' ' -f1)
if [ "$(cat target/.sum-$kind 2>/dev/null)" = "$sum" ] && [ -x target/$kind/htsim ]; then exit 0; fi
rm -f target/.sum-$kind
if [ -d target/$kind/.fingerprint ]; then
    find ./target/$kind/.fingerprint -maxdepth 1 \( -name 'hash-trie-*' -o -name 'htsim-*' -o -name 'htcore-*' -o -name 'htw*' \) -exec rm -rf {} +
fi
if ! cargo build --offline --profile $profile > target/build.log 2>&1; then
    tail -40 target/build.log
    echo "the simulator does not build against /repo"
    exit 2
fi
echo "$sum" > target/.sum-$kind
