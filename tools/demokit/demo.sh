#!/bin/bash
# Generates the peers with the generator built from the working tree, runs the scenario in main.rs against them.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=1.75.0 CARGO_NET_OFFLINE=true
export RUST_BACKTRACE=0
export PATH=/root/.cargo/bin:$PATH
work=$(mktemp -d) || exit 9
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/demo" && cp -r "$here/kit/." "$work/demo/" && cp "$here/main.rs" "$work/demo/main.rs" || exit 9
cd "$work/demo" || exit 9
mv user/prod prod; mv user/cons cons
cp Cargo.toml ../saved.toml
timeout 60 "$repo/cli/target/release/clibri" -s demo.prot -wf demo.workflow -cd "$work/demo/cons" -pd "$work/demo/prod" > gen.log 2>&1 || { cat gen.log; echo "generation failed"; exit 4; }
cp ../saved.toml Cargo.toml
export CARGO_TARGET_DIR=$work/target RUSTFLAGS=-Awarnings
cargo build --offline --locked -q || { echo "does not compile"; exit 5; }
timeout 120 "$work/target/debug/demo"
