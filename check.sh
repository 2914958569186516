#!/bin/bash
# check.sh <property>: rebuild the simulator against /repo's working tree and decide one property.
# exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
export RUSTC_WRAPPER="$here/sim/rustc-wrap.sh"
unset RUSTC_WORKSPACE_WRAPPER RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
log=$(mktemp)
cd "$here/sim" || exit 2
if ! cargo build --offline --locked >"$log" 2>&1; then
    tail -40 "$log" >&2
    rm -f "$log"
    echo "check.sh: the simulator does not build against this tree" >&2
    exit 2
fi
rm -f "$log"
[ "${1:-}" = --build-only ] && exit 0
cd "$here" || exit 2
exec "$here/sim/target/debug/mcsim" check "$1"
