#!/bin/bash
# Builds the explorer against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR=$PWD/target CARGO_NET_OFFLINE=true
# Modification times do not tell whether /repo has changed: always recompile it.
cargo clean --quiet --release --offline --manifest-path mc/Cargo.toml -p whitespace 2>/dev/null
out=$(cargo build --release --offline --locked --manifest-path mc/Cargo.toml 2>&1)
status=$?
if [ $status != 0 ]; then
  printf '%s\n' "$out" >&2
  echo "the explorer does not build" >&2
  exit 2
fi
# What makes the command line program's input and output fail.
if ! [ target/io.so -nt mc/io.c ]; then
  cc -shared -fPIC -O1 -o "target/io.so.$$" mc/io.c -ldl && mv "target/io.so.$$" target/io.so || exit 2
fi
