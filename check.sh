#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough]
# Builds the simulator against the working tree of /repo and searches for violations of the
# property. Exit 0: held. Exit 1: violated (a VIOLATION line names the replay file). Else: error.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
unset RUST_BACKTRACE RUST_LOG
export VERIF_DIR="$here"
property="$1"
tier="${2:-${VERIF_TIER:-quick}}"
seed="${VERIF_SEED:-1}"
case "$property" in
P16 | P17)
    # The editor plugins are not Rust.
    exec node "$here/plug/plugsim.mjs" check --property "$property" --tier "$tier" --seed "$seed"
    ;;
P15) features="--features bridge" ;;
*) features="" ;;
esac
cd "$here/sim" || exit 2
if ! cargo build --release --offline --quiet $features 2> "$here/sim/target-build.log"; then
    cat "$here/sim/target-build.log" >&2
    echo "check error: the simulator does not build against /repo" >&2
    exit 2
fi
exec "$here/sim/target/release/ethersim" check --property "$property" --tier "$tier" --seed "$seed"
