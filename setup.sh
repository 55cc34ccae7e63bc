#!/bin/bash
# Builds the extractor and the harness once, to fail early if the toolchain is not as expected.
set -e
cd "$(dirname "$0")"
mkdir -p .build evidence
(cd extract && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=../.build/extract cargo build -q --offline)
verus --version
