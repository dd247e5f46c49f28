#!/bin/bash
# development helper: run.sh BIN... (v1 build in /tmp/mct)
cd /verif/mc; . /opt/vp/env.sh
args=(); for b in "$@"; do args+=(--bin $b); done
cargo build --offline --release --features std,fixed,alloc,unsafe --target-dir /tmp/mct "${args[@]}" 2>&1 | grep -E "^(error|warning: unused)" -A8 | head -${LINES_:-80}
for b in "$@"; do timeout 600 /tmp/mct/release/$b --variant v1 --replay-dir /tmp/rp $X 2>&1 | tail -6 | cut -c1-1500; done
