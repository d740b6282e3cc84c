#!/bin/bash
# run.sh PROP quick|thorough : rebuild against /repo's working tree, then search
V="$(cd "$(dirname "$0")" && pwd)"
cd "$V" || exit 2
bash ./build.sh || exit 2
export QSIM_HOME="$V"
exec ./.build/target/x86_64-unknown-linux-gnu/debug/qsim check "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}"
