#!/bin/sh
# RUSTC_WRAPPER of the concurrency checks: the code under test and the thread programs are instrumented, the explorer is not.
name=
p=
for a in "$@"; do [ "$p" = --crate-name ] && name=$a; p=$a; done
case "$name" in
level_db_rust|c25|c26|c34|rtself) exec "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer ;;
k) exec "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
*) exec "$@" ;;
esac
