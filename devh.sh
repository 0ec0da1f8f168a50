#!/bin/sh
# devh.sh SCENARIO [args] : build the harness and the binary, run one scenario as an unprivileged user
export CARGO_TARGET_DIR=/repo/target CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_INCREMENTAL=1 RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH=/root/.cargo/bin:$PATH
S=$1; shift
(cd /repo && cargo build --offline -q --bin backpak) || exit 2
(cd /verif/harness && cargo build --offline -q --bin bph_$S 2>/tmp/hb.log) || { grep -A12 '^error' /tmp/hb.log | head -${LINES_MAX:-80}; exit 2; }
W=$(mktemp -d /tmp/bpv-XXXXXX); chmod 755 $W; cp /repo/target/debug/bph_$S /repo/target/debug/backpak $W/; mkdir $W/w; chown -R 54321:54321 $W
rm -f /tmp/out.json
(cd $W/w; setpriv --reuid 54321 --regid 54321 --clear-groups env HOME=$W/w TMPDIR=$W/w TZ=UTC LC_ALL=C.UTF-8 $W/bph_$S $S --bin $W/backpak --work $W/w --out $W/w/out.json "$@")
cp $W/w/out.json /tmp/out.json
python3 - <<'P'
import json
d=json.load(open('/tmp/out.json'))
print({k:v for k,v in d['stats'].items() if k not in('samples','rule')})
for v in d['violations']:
    print('VIOL',v['prop'],v['what'][:500], v.get('signature'))
    r=v['replay']
    for l in (r.get('history') or [])[-14:]: print('    ',l[:300])
P
rm -rf "$W"
