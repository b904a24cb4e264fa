#!/bin/bash
# Builds every monitor of the harness from the committed files.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p evidence run replays
build --bins && build_nostd && build_pallet && build_san && build_tsan
