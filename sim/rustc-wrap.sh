#!/bin/bash
# compiles the library under test (and its instantiations) with a call to
# __sanitizer_cov_trace_pc in every basic block: the simulator's preemption points
case " $* " in
*" --crate-name libmcaptcha "* | *" --crate-name mcinst "*)
    exec "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=2 -C llvm-args=-sanitizer-coverage-trace-pc
    ;;
esac
exec "$@"
