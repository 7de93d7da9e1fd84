#!/bin/sh
export ASAN_OPTIONS=detect_stack_use_after_return=1:quarantine_size_mb=8:abort_on_error=1:symbolize=0:detect_leaks=0:disable_coredump=1
export TSAN_OPTIONS=halt_on_error=1:abort_on_error=1:symbolize=0:report_signal_unsafe=0
exec "$0.bin" "$@"
