#!/bin/bash
# Builds every explorer once, so that the checks only rebuild what a change touches.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
. ./env.sh
. ./ws.sh
for c in mc/*/; do
  [ -f "$c/src/main.rs" ] && { (cd "$c" && cargo build --release --offline -q) || exit 1; }
done
build_programs || exit 1
mkdir -p evidence/replay
