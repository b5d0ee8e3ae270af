#!/bin/bash
# builds the fact dumper, generates the analysis workspace and dumps facts for every analysed crate
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
(cd driver && cargo +nightly build --release --offline)
python3 check.py --setup
