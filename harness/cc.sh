#!/bin/bash
args=()
for a in "$@"; do case "$a" in --target=*) ;; -march=*|-mabi=*) ;; *) args+=("$a");; esac; done
exec clang-18 -emit-llvm -fno-vectorize -fno-slp-vectorize "${args[@]}"
