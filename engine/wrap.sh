#!/bin/bash
# rustc wrapper: also emit LLVM IR for the crates the symbolic executor reads
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
case "$name" in
 aobv|asset_agnostic_orderbook|bonfida_utils|borsh|dex_wasm|solana_program) exec "$rustc" "$@" --emit=llvm-ir -C codegen-units=1 -C opt-level=2 -C no-vectorize-loops -C no-vectorize-slp -C overflow-checks=on -C debug-assertions=on ;;
 *) exec "$rustc" "$@" ;;
esac
