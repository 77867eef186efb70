#!/bin/bash
# check.sh <property> [uwusim options]: rebuilds the simulator from /repo's working tree and searches.
cd "$(dirname "$0")/sim" || exit 3
mkdir -p ../out
if ! cargo build --release --offline >../out/build.log 2>&1; then
    cat ../out/build.log >&2
    echo "ERROR: the simulator does not build against /repo" >&2
    exit 3
fi
exec target/release/uwusim check "$@"
