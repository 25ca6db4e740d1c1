# Shared by check.sh, replay.sh and setup.sh.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:$PATH
export RUSTUP_TOOLCHAIN=1.98.1 RUSTC_BOOTSTRAP=1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
# A warning in one build configuration only must not stop a check.
export RUSTFLAGS="--cap-lints=warn"

# One build directory per content of the sources, so that no time stamp can hide a change.
source_hash() {
    (
        cd /repo && find . \( -name target -o -name .git \) -prune -o -type f -print0 | sort -z | xargs -0 sha256sum
        cd "$here/sim" && find . -name target -prune -o -type f -print0 | sort -z | xargs -0 sha256sum
    ) | sha256sum | cut -c1-16
}

FOREIGN=armeb-unknown-linux-gnueabi

build_all() {
    local root="$here/build"
    mkdir -p "$root" 2>/dev/null && [ -w "$root" ] || root="${TMPDIR:-/tmp}/apfloat-sim-build"
    BUILD="$root/$(source_hash)"
    mkdir -p "$BUILD" || return 1
    # Keep the newest few only.
    ls -1dt "$root"/*/ 2>/dev/null | tail -n +4 | while read -r d; do
        [ "$d" = "$BUILD/" ] || rm -rf -- "$d"
    done
    (
        flock 9
        cd "$here/sim" || exit 1
        # Replicas, without instrumentation: the optimised one and the one not optimised at all.
        rel= plain= foreign=
        case "$1" in C13 | all)
            CARGO_TARGET_DIR="$BUILD/r" cargo build --offline --locked --release -p sim >"$BUILD/release.log" 2>&1 &
            rel=$!
            ;;
        esac
        # The one on another kind of host, in an interpreter.
        case "$1" in C03 | C13 | all)
            "$here/sim/portable/host.sh" "$BUILD/m" $FOREIGN build >"$BUILD/foreign.log" 2>&1 &
            foreign=$!
            ;;
        esac
        case "$1" in C12 | C13 | all)
            CARGO_TARGET_DIR="$BUILD/p" cargo build --offline --locked --profile plain -p sim >"$BUILD/plain.log" 2>&1 &
            plain=$!
            ;;
        esac
        CARGO_TARGET_DIR="$BUILD/i" RUSTC_WRAPPER="$here/sim/rustc-wrap.sh" cargo build --offline --locked -p sim >"$BUILD/debug.log" 2>&1 || { tail -40 "$BUILD/debug.log" >&2; exit 1; }
        [ -z "$rel" ] || wait "$rel" || { tail -40 "$BUILD/release.log" >&2; exit 1; }
        [ -z "$plain" ] || wait "$plain" || { tail -40 "$BUILD/plain.log" >&2; exit 1; }
        # Without a build for that host the check goes on, and its evidence says 0 runs there.
        if [ -n "$foreign" ] && ! wait "$foreign"; then
            tail -20 "$BUILD/foreign.log" >&2
            echo "note: no build for $FOREIGN" >&2
            rm -f -- "$BUILD/foreign.ok"
        elif [ -n "$foreign" ]; then
            : >"$BUILD/foreign.ok"
        fi
    ) 9>"$BUILD.lock"
}

# run_sim ARGS...: the instrumented simulator, told where the replicas are.
run_sim() {
    local foreign=
    [ ! -f "$BUILD/foreign.ok" ] || foreign="exec '$here/sim/portable/host.sh' '$BUILD/m' $FOREIGN"
    SIM_REPLICA="$BUILD/r/release/sim" SIM_PLAIN="$BUILD/p/plain/sim" \
        SIM_FOREIGN="$foreign" "$BUILD/i/debug/sim" "$@"
}
