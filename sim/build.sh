#!/bin/bash
# Builds the simulator and the instrumented system under test from /repo's tree.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2022-11-14 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER="$here/tools/rustc-wrap.sh" RUSTFLAGS="--cfg kogarashi_sim -Awarnings" CARGO_TARGET_DIR="$here/target"
bash "$here/gen.sh"
cd "$here"
cargo build --release --offline --config 'source.crates-io.replace-with="vp-vendor"' --config 'source.vp-vendor.directory="/opt/vp/vendor"' -p scen "$@"
