#!/bin/bash
# host.sh DIR TARGET: runs the portable replica in Miri, playing a host of kind TARGET.
# host.sh DIR TARGET build: builds all that this needs; DIR holds it.
# host.sh DIR TARGET threads SEED RATE CALLS: makes calls on several threads; SEED and RATE (how
# likely a preemption is at each point) decide scheduling, stale reads and spurious failures.
dir="$1" target="$2"
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true XDG_CACHE_HOME="$dir" CARGO_TARGET_DIR="$dir/target"
export RUSTFLAGS="--cap-lints=warn -Awarnings" MIRIFLAGS="-Zmiri-disable-validation -Zmiri-disable-stacked-borrows -Zmiri-disable-alignment-check"
unset RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS RUSTC_BOOTSTRAP
cd "$here" || exit 1
if [ "$3" = threads ]; then
    # In isolation, so that the seed alone decides.
    MIRIFLAGS="$MIRIFLAGS -Zmiri-seed=$4 -Zmiri-preemption-rate=$5" exec cargo miri run -q --offline --target "$target" -- "$6"
fi
MIRIFLAGS="$MIRIFLAGS -Zmiri-disable-isolation"
if [ "$3" = build ]; then
    cargo miri setup -q --target "$target" </dev/null || exit 1
    exec cargo miri run -q --offline --target "$target" </dev/null
fi
exec cargo miri run -q --offline --target "$target"
