#!/bin/bash
# builds the harness (once per fresh copy; the checks rebuild it incrementally from /repo)
cd "$(dirname "$0")/../harness" && CARGO_NET_OFFLINE=true RUSTC_WRAPPER= cargo build --offline --quiet --bins
