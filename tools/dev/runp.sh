for p in "$@"; do mkdir -p /tmp/s; /usr/bin/time -f "%es %MK" /verif/target/part/debug/vmon $p --seed ${SEED:-1} --tier ${TIER:-quick} --scratch /tmp/s --out /tmp/s/o.json --journal /tmp/s/j; echo rc $?; python3 -c "
import json;d=json.load(open('/tmp/s/o.json'));print(d['property'],d['evaluations'],d['distinct'],d['counters'],d['violations'][:2])"; done
