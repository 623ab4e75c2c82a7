#!/bin/bash
# builds the extractor and the bounded harness once, so that the checks start warm
cd "$(dirname "$0")/.." || exit 1
V=$PWD
export CARGO_NET_OFFLINE=true
mkdir -p target evidence
(cd extract && cargo build --offline -q) || exit 1
(cd /repo && cargo build --offline -q -p reductionml-cli --target-dir "$V/target/cli") || true
(cd harness && cargo build --offline -q --bins) || true
exit 0
