#!/bin/bash
# cargo's RUSTC_WRAPPER: has every load and store of the library and of the simulator announced (seam/)
rustc="$1"
shift
case " $* " in
    *" --crate-name elasticlunr "* | *" --crate-name esim "*)
        exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=1 \
            -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores
        ;;
esac
exec "$rustc" "$@"
