#!/bin/bash
export FULL_BIN=/verif/target/full/debug
for p in "$@"; do rm -rf /tmp/js-$p; mkdir -p /tmp/js-$p; echo "== $p"; timeout 900 node /verif/js/main.mjs $p --seed ${SEED:-1} --tier ${TIER:-quick} --scratch /tmp/js-$p --out /tmp/js-$p/out.json --journal /tmp/js-$p/journal --dict /tmp/dict.json $EXTRA && python3 - /tmp/js-$p/out.json <<'P'
import json,sys
d=json.load(open(sys.argv[1]));print(d['evaluations'],d['distinct'],d['wall_s'],d['counters']);[print('  VIOL',json.dumps(dict(list(v.items())[::-1]))[:int(__import__("os").environ.get("N","1500"))]) for v in d['violations'][:4]]
P
rm -rf /tmp/js-$p; done
