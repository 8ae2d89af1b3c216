#!/bin/bash
# Builds the harness crates once (every check rebuilds what it needs anyway).
here=$(cd "$(dirname "$0")" && pwd)
. "$here/lib.sh"
mkdir -p "$here/evidence" "$here/replays"
build mc || exit 1
build_sched || exit 1
build mc tc || exit 1
program || exit 1
build overall || echo "no overall programs"
build_prog || echo "no scheduled program"
. "$here/capi/build.sh"
capi_build || exit 1
build mc capi
