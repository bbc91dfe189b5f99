#!/bin/bash
cd "$(dirname "$0")" || exit 2
bash build.sh || exit 2
target/release/mc prepare
