#!/bin/bash
# builds the explorer (and geom3d from /repo with it), offline
cd "$(dirname "$0")/mc" && CARGO_NET_OFFLINE=true cargo build --offline
