#!/bin/bash
# Instruments the code under test (and only it) with a callback per basic block.
rustc="$1"; shift
lib="$VSIM_LIB"
case " $* " in
*" --crate-name asciidocr "*)
  exec "$rustc" "$@" --cap-lints allow -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
    -C llvm-args=-sanitizer-coverage-trace-pc-guard -C link-arg=-L"$lib" -C link-arg=-lvsim \
    -C link-arg=-Wl,-rpath,"$lib" ;;
*" --crate-name libsim "*)
  exec "$rustc" "$@" --cap-lints allow -C link-arg=-L"$lib" -C link-arg=-lvsim -C link-arg=-Wl,-rpath,"$lib" ;;
esac
exec "$rustc" "$@" --cap-lints allow
