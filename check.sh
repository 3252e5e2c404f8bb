#!/bin/bash
# check.sh <property> [arguments of "esim check"]   build from /repo's working tree and check
# check.sh --replay <file> [-v]                     replay a recorded violation
# check.sh --selftest [arguments]                   every run twice and by its recorded schedule
# check.sh --build                                  build only
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER="$here/sim/rustc-wrap.sh" RUST_BACKTRACE=0
unset RUSTFLAGS RUSTDOCFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export ESIM_ROOT="$here"

build() { # features, target directory
    local t="$here/sim/$2" stamp
    mkdir -p "$t"
    exec 9>"$t/.lock"
    flock 9
    # what is built has to be what /repo contains now, whatever the time stamps say
    stamp="$( (cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum)"
    if [ -e "$t/repo.stamp" ] && [ "$(cat "$t/repo.stamp")" != "$stamp" ]; then
        (cd "$here/sim" && cargo clean -q --offline --release --target-dir "$t" -p elasticlunr-rs -p esim) >/dev/null 2>&1
    fi
    (cd "$here/sim" && cargo build -q --release --offline --locked --features "$1" --target-dir "$t") >"$t/build.log" 2>&1
    local rc=$?
    if [ $rc -ne 0 ]; then
        echo "BUILD-ERROR: the simulator does not build against /repo" >&2
        grep -v '^warning' "$t/build.log" | tail -40 >&2
        exit 2
    fi
    echo "$stamp" >"$t/repo.stamp"
    exec 9>&-
    bin="$t/release/esim"
}

features_of() {
    case "$1" in
        C11) build all target-all ;;
        *) build base target ;;
    esac
}

case "${1:-}" in
    --build)
        build base target
        build all target-all
        ;;
    --replay)
        features_of "$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$2" | head -1)"
        shift
        exec "$bin" replay "$@"
        ;;
    --selftest)
        shift
        case " $* " in *" C11 "*) build all target-all ;; *) build base target ;; esac
        exec "$bin" selftest "$@"
        ;;
    C*)
        prop="$1"
        shift
        features_of "$prop"
        exec "$bin" check --prop "$prop" "$@"
        ;;
    *)
        sed -n '2,5p' "$0"
        exit 2
        ;;
esac
