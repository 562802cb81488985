#!/bin/bash
# RUSTC_WRAPPER of the verification build ($1 is the rustc cargo would run): target crates are
# compiled by the verifier's rustc driver against the sysroot that carries the full MIR of std.
# The arguments of the harness crate are recorded so that single harnesses can be run later.
D=$(cd "$(dirname "$0")" && pwd)
shift
case " $* " in
  *" --target "*)
    case " $* " in
      *" --crate-name glharness "*) [ -n "$MIRV_RECORD" ] && printf '%s\0' "$@" > "$MIRV_RECORD" ;;
    esac
    extra=
    # the portable implementation of the hash table groups instead of SIMD intrinsics
    case " $* " in *" --crate-name hashbrown "*) extra="--cfg miri" ;; esac
    exec "$D/mirv/target/release/mirv" "$@" $extra --sysroot "$MIRV_SYSROOT" -Zalways-encode-mir -Zmir-opt-level=1 -Coverflow-checks=on -Cdebug-assertions=off ;;
  *) exec rustc "$@" ;;
esac
