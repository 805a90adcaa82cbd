#!/bin/bash
# development build of the harness
cd /verif/harness && RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/build/native cargo build --release --message-format short 2>&1 | grep -v '^/repo' | grep "error\|^src\|Finished" | head -${1:-60}
