#!/bin/bash
# RUSTC_WRAPPER: the pinned rustix 0.37 probes the compiler for the internal
# `rustc_attrs` feature, which the 2026 nightly renamed.  Compile that one
# third-party crate as a stable compiler would; everything else unchanged.
real="$1"; shift
case " $* " in
  *" --crate-name rustix "*)
    args=(); skip=0
    for a in "$@"; do
      if [ "$a" = rustc_attrs ] && [ "${args[-1]}" = "--cfg" ]; then unset 'args[-1]'; continue; fi
      args+=("$a")
    done
    exec "$real" "${args[@]}";;
esac
exec "$real" "$@"
