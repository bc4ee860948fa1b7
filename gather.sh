#!/bin/bash
# gather.sh REPO OUT TARGET : build facts for the workspace at REPO into directory OUT
set -u
REPO=$1; OUT=$2; TGT=$3
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_HUSKY_DONT_INSTALL_HOOKS=1 CARGO_INCREMENTAL=0
export LD_LIBRARY_PATH=$(rustc --print sysroot)/lib
export CARGO_TARGET_DIR=$TGT
mkdir -p "$OUT" "$TGT" || exit 3
# cargo's freshness cache would silently skip the wrapper: drop the members' fingerprints
find "$TGT" -mindepth 1 -maxdepth 5 -type d \( -name 'atelier[-_]*' -o -name 'cargo[-_]atelier*' \) -prune -exec rm -rf -- {} +
export RUSTC_WORKSPACE_WRAPPER=$HERE/build/driver FACTS_DIR=$OUT
cd "$REPO" || exit 3
exec cargo check --workspace --all-features --offline --locked
