#!/bin/bash
cd /verif/rust/full && CARGO_TARGET_DIR=/verif/target/full cargo build --offline 2>&1 | grep -E "^(error|warning: unused)" -A9
for p in "$@"; do rm -rf /tmp/rf.d; mkdir -p /tmp/rf.d; (cd /tmp/rf.d; VERIF_REPO=/repo VERIF_DIR=/verif FULL_BIN=/verif/target/full/debug PART_BIN=/verif/target/part/debug RUST_BACKTRACE=0 timeout 1000 /verif/target/full/debug/fmon $p --seed ${SEED:-1} --tier ${TIER:-quick} --scratch /tmp/rf.d --out /tmp/rf.json --journal /tmp/rf.jr --dict /tmp/dict.json $ONLY > /tmp/rf.log 2>&1); echo "$p rc=$? $(cat /tmp/rf.jr | head -c 60)"; tail -3 /tmp/rf.log | head -c 600; python3 - <<'P'
import json
d=json.load(open('/tmp/rf.json'))
print({k:d[k] for k in ('property','evaluations','distinct','wall_s')}, d['counters'])
for v in d['violations'][:5]: print('V',json.dumps(v)[:900])
P
done
