#!/bin/bash
# Builds the framework once, to show that it builds offline. Checks rebuild what they need.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/lib.sh"
build_all all
