#!/bin/bash
# dev helper: extract and verify one unit
U=$1; shift
cd /verif/contracts
B=/verif/tools/extract/target/release/bpextract
mkdir -p /tmp/vx; $B units/$U.bp ${SRC:-/repo/src} prelude /tmp/vx/$U.rs /tmp/vx/$U.json || exit 3
cd /tmp/vx; time verus $U.rs "$@" 2>&1
