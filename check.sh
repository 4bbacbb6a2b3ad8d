#!/bin/bash
# Decides one property: builds the harness against /repo's working tree and runs its legs.
#   check.sh <property-id> [extra vh options]
# VERIF_SEED (default 1) drives every random choice; VERIF_TIER is quick (default) or thorough.
cd "$(dirname "$0")" || exit 3
id=$1; shift
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
. ./build.sh || exit 3
mkdir -p evidence replays
exec target/release/vh run "$id" --evidence "evidence/$id.json" --replays "$PWD/replays" "$@"
