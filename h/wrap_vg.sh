#!/bin/sh
exec valgrind -q --error-exitcode=99 --exit-on-first-error=yes --max-stackframe=300000 "$0.bin" "$@"
