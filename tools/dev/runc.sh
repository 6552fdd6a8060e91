#!/bin/bash
cd /verif/rust/full && CARGO_TARGET_DIR=/verif/target/full VERIF_REPO_HASH=${H:-x} cargo build --offline 2>&1 | grep -E "^(error|warning: unused)" -A9
for p in "$@"; do rm -rf /tmp/rc.d; mkdir -p /tmp/rc.d; (cd /tmp/rc.d; VERIF_REPO=/repo VERIF_DIR=/verif RUST_BACKTRACE=0 timeout 1000 /verif/target/full/debug/fmon $p --seed ${SEED:-1} --tier ${TIER:-quick} --scratch /tmp/rc.d --out /tmp/rc.json --journal /tmp/rc.jr --dict /tmp/dict.json --part cli $ONLY > /tmp/rc.log 2>&1); echo "$p rc=$? $(cat /tmp/rc.jr | head -c 60)"; tail -3 /tmp/rc.log | head -c 600; python3 - <<'P'
import json
d=json.load(open('/tmp/rc.json'))
print({k:d[k] for k in ('property','evaluations','distinct','wall_s')}, d['counters'])
for v in d['violations'][:6]: print('V',json.dumps(v)[:1200])
P
done
