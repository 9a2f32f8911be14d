#!/bin/bash
# Nothing is kept between runs: every check builds what it needs from /repo.
# This only verifies that the tools the checks use are present.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays build
cargo kani --version
verus --version | head -2
z3 --version
cvc5 --version | head -1
RUSTUP_TOOLCHAIN=1.90.0 cargo --version
