#!/bin/sh
# builds the extractor and the replay crate (each check rebuilds them when needed)
set -e
cd "$(dirname "$0")"
(cd tools/extract && cargo build --offline -q)
(cd replay && cargo build --offline -q --release)
(cd tools/fixture && for p in serde_json_path fixture; do RUSTC_BOOTSTRAP=1 cargo rustc --offline -q -p $p --lib -- -Zunpretty=expanded >/dev/null 2>&1 || true; done)
