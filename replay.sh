#!/bin/bash
# replay.sh FILE: runs one recorded scenario and schedule again against /repo's current tree
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || exit 2
exec "$here/harness/target/debug/htsim" replay "$1"
