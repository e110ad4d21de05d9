#!/bin/bash
# check.sh PROPERTY quick|thorough   -- builds the simulator against /repo's working tree and runs one check.
# check.sh build                     -- only builds.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/sim/target"
cd "$here/sim" || exit 3

# cargo decides by file times; decide by content instead
stamp=$(cd /repo && find contracts packages Cargo.toml Cargo.lock -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.md' \) -not -path '*/target/*' -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
mkdir -p target
if [ "$(cat target/.repo-stamp 2>/dev/null)" != "$stamp" ]; then
    rm -f "$CARGO_TARGET_DIR/.repo-stamp"
    [ -d target/debug ] && cargo clean --offline -q -p sg-marketplace -p sg-marketplace-common@1.2.0 -p stargaze-reserve-auction -p stargaze-marketplace-v2 -p mktsim >/dev/null 2>&1
fi
log=target/build.log
if ! cargo build --offline -q >"$log" 2>&1; then
    echo "build failed:"
    tail -50 "$log"
    exit 3
fi
echo "$stamp" > target/.repo-stamp
[ "$1" = build ] && exit 0

prop=$1
tier=${2:-quick}
seed=${VERIF_SEED:-1}
runs=${VERIF_RUNS:-}
wall=${VERIF_WALL:-}
if [ "$tier" = thorough ]; then
    : "${runs:=100000000}" "${wall:=780}"
else
    : "${runs:=18000}" "${wall:=45}"
fi
exec "$here/sim/target/debug/mktsim" check --property "$prop" --tier "$tier" --seed "$seed" --runs "$runs" --wall "$wall" \
    --workers "$(nproc)" --evidence "$here/evidence/$prop.json" --replays "$here/replays" --known "$here/known-findings.txt"
