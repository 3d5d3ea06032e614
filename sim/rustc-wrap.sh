#!/bin/bash
# RUSTC_WRAPPER: ThreadSanitizer instrumentation (without its run-time library) for the code under test and the harness.
rustc="$1"; shift
name=; prev=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name="$a"
  prev="$a"
done
case "$name" in
  ipmb_derive) exec "$rustc" "$@" ;;
  ipmb|ipmb_*|dst)
    export RUSTC_BOOTSTRAP=1
    exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer ;;
  *) exec "$rustc" "$@" ;;
esac
