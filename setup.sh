#!/bin/bash
# Nothing is installed: every check builds what it needs from /repo's working tree.
# This only verifies that the tools the checks use are present, and warms the build.
cd "$(dirname "$0")" || exit 1
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
command -v cargo >/dev/null || { echo "cargo missing"; exit 1; }
command -v valgrind >/dev/null || { echo "valgrind missing"; exit 1; }
exit 0
