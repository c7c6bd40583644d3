#!/bin/bash
# RUSTC_WRAPPER: compiles the library under test (and the thin dispatch crate that may receive
# its #[inline] functions) with a callback on every load, store and control-flow edge (MZSIM_FAST: on edges only).
rustc="$1"; shift
san="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard"
if [ -z "$MZSIM_FAST" ]; then
  san="$san -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores"
fi
case " $* " in
  *" --crate-name mazth "*) exec "$rustc" "$@" $san --cap-lints allow ;;
  *" --crate-name mzops "*) exec "$rustc" "$@" $san ;;
  *" --crate-name mzsim "*) exec "$rustc" "$@" ${MZSIM_FAST:+--cfg mzfast} ;;
  *) exec "$rustc" "$@" ;;
esac
