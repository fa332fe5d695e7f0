#!/bin/bash
# builds the executor; every check builds again whatever it needs
cd "$(dirname "$0")" && mkdir -p work && cd sx && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=../work/sx cargo build --release --offline -q
