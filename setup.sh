#!/usr/bin/env bash
# builds the harness and the CLI once, so that each check only rebuilds what changed
set -eu
cd "$(dirname "$0")"
here=$PWD
. ./env.sh
# one by one, as the checks do: built together they would share features, and each check would build again
(cd harness && cargo build --offline -q -p vt-core && cargo build --offline -q -p vt-lsp)
CARGO_TARGET_DIR=$here/target-cli cargo build --offline -q --manifest-path /repo/Cargo.toml -p tombi-cli
