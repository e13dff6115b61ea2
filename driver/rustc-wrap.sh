#!/bin/bash
# RUSTC for cargo: the nightly compiler, with the MIR dumper for workspace crates.
# Version queries hide "-nightly" so that old build scripts do not switch on
# removed unstable features.
SR=$NV_SYSROOT
for a in "$@"; do
  case "$a" in
    -vV|-V|--version) "$SR/bin/rustc" "$@" | sed 's/-nightly//'; exit "${PIPESTATUS[0]}";;
  esac
done
# the description crate is also a build dependency, without its parser: only the full build is dumped
if [ "$CARGO_CRATE_NAME" = solana_include_idl ]; then
  case "$*" in *'feature="parse"'*) ;; *) exec "$SR/bin/rustc" "$@";; esac
fi
if [ -n "$CARGO_PRIMARY_PACKAGE" ] && [ "$CARGO_CRATE_NAME" != build_script_build ]; then
  exec "$NV_MIRDUMP" "$@" --sysroot "$SR"
fi
exec "$SR/bin/rustc" "$@"
