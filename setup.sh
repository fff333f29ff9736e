#!/bin/bash
# Builds the simulator once, so that later checks only rebuild what changed.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
cd "$here/sim" && cargo build --release --offline --quiet
