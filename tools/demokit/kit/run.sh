#!/bin/bash
# run.sh MAIN.rs: builds the demonstration in a scratch directory against the crates in the current directory, runs it.
kit=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
python3 "$kit/derive.py" "$scratch/ws" "$1" || exit 2
export CARGO_TARGET_DIR=$scratch/target
(cd "$scratch/ws" && cargo build --offline -p demo >"$scratch/log" 2>&1) || { tail -40 "$scratch/log"; exit 2; }
mkdir "$scratch/run" && cd "$scratch/run" && CC=$scratch/target/debug/demo TMPDIR=$scratch/run timeout -k 5 100 "$scratch/target/debug/demo"
