#!/bin/bash
# builds the extractor and the search harness (checks rebuild whatever is missing)
cd "$(dirname "$0")"
mkdir -p .build evidence
cargo build --offline --locked --target-dir .build/vx --manifest-path vx/Cargo.toml 2>/dev/null
cargo build --offline --locked --target-dir .build/ht --manifest-path harness/Cargo.toml 2>/dev/null
exit 0
