#!/bin/bash
# rustc stand-in handed to cargo 1.82: runs the nightly compiler under the pinned cargo, and the
# fact-dumping driver for the crates of /repo's workspace.
R=/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu
export RUSTC_BOOTSTRAP=-1
case "$*" in
*-vV*|*--version*) $R/bin/rustc "$@" | sed 's/-nightly//'; exit;;
esac
case "$CARGO_PKG_NAME:$*" in
tailcall-valid:*|tailcall-chunk:*|*build_script_build*) ;;
tailcall:*|tailcall-*)
  if [ -n "$FACTS_OUT" ]; then
    LD_LIBRARY_PATH=$R/lib exec "$FACTS_DRIVER" --sysroot $R $FACTS_FLAGS "$@"
  fi;;
esac
exec $R/bin/rustc "$@"
