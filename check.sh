#!/bin/bash
# check.sh P01 quick|thorough
here=$(cd "$(dirname "$0")" && pwd)
kind=debug; [ "$2" = thorough ] && kind=deep
bash "$here/build.sh" $kind || exit 2
cd "$here" && HTSIM_OUT="${HTSIM_OUT:-$here/out}" HTSIM_EVIDENCE="${HTSIM_EVIDENCE:-$here/evidence}" exec "$here/harness/target/$kind/htsim" check "$1" "${2:-quick}"
