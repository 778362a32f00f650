#!/bin/bash
# RUSTC_WRAPPER: instruments only the code under simulation (the library, its
# one dependency and the thin typed wrapper that instantiates its generics)
# so that every basic-block edge and every memory access is a callback the
# simulator owns.  The simulator itself is compiled plainly.
rustc="$1"; shift
name=""
prev=""
for a in "$@"; do
    [ "$prev" = "--crate-name" ] && name="$a"
    prev="$a"
done
case "$name" in
    babs|num_traits|subject)
        exec "$rustc" "$@" \
            -Cpasses=sancov-module \
            -Cllvm-args=-sanitizer-coverage-level=3 \
            -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
            -Cllvm-args=-sanitizer-coverage-trace-loads \
            -Cllvm-args=-sanitizer-coverage-trace-stores ;;
    dst)
        # set_alloc_error_hook: lets a refused allocation unwind
        RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" ;;
    *)
        exec "$rustc" "$@" ;;
esac
