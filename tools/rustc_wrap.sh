#!/bin/bash
# RUSTC_WRAPPER: dump the MIR of the crates under verification while they are compiled for the replay binary
r="$1"; shift
prev=; name=
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
case "$name" in
  plonky|plookup)
    mkdir -p "$VERIF_MIR_DIR"
    exec "$r" "$@" -Zverbose -Zdump-mir=mir_map -Zdump-mir-dir="$VERIF_MIR_DIR" -Zdump-mir-exclude-pass-number;;
esac
exec "$r" "$@"
