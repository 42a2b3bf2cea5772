#!/bin/bash
# check.sh ID: rebuilds the verifier when needed and decides property ID on
# /repo's current tree.
cd "$(dirname "$0")/.."
bash tools/build.sh || exit 2
exec bin/pgvc check "$1"
