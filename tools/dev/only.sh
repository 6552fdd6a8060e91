p=$1; o=$2; mkdir -p /tmp/s; /usr/bin/time -f "%es %MK" /verif/target/part/debug/vmon $p --seed ${SEED:-1} --tier ${TIER:-quick} --scratch /tmp/s --out /tmp/s/o.json --journal /tmp/s/j --only $o; echo rc $?
