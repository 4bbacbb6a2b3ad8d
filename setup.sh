#!/bin/bash
# Builds the harness once, offline, from the committed files.
cd "$(dirname "$0")" || exit 3
export CARGO_NET_OFFLINE=true
. ./build.sh
