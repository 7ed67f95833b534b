cd /verif && . /opt/vp/env.sh && python3 tools/mirror.py && cd work/ws && export CARGO_TARGET_DIR=/verif/work/target CARGO_INCREMENTAL=0
cargo build --offline --profile sim "$@" 2>&1 | grep -E '^(error|    Finished)' -A12
