#!/bin/bash
# replay.sh FILE: runs one scenario file again against /repo's working tree; exit 1 if it violates.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/lib.sh"
build_all all || exit 3
run_sim replay "$1"
