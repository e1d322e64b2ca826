#!/bin/bash
# builds the monitor crate from the committed files, offline
V=$(cd "$(dirname "$0")" && pwd)
. "$V/build.sh" || exit 2
vp_build_tsan || echo "note: no thread-sanitizer build"
