#!/bin/bash
# rustc wrapper: count the edges that yary and the simulator execute
rustc="$1"
shift
case " $* " in
*" --crate-name yary "* | *" --crate-name yary_sim "*)
    exec "$rustc" "$@" --cfg yary_cost -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard
    ;;
esac
exec "$rustc" "$@"
