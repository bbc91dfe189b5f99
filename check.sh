#!/bin/bash
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
bash build.sh || exit 2
exec target/release/mc check "$1"
