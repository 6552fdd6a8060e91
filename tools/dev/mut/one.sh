#!/bin/bash
# one.sh FILE ID: apply mutant in slot s9 and open a command in it: one.sh FILE ID cmd...
f=$1; id=$2; shift 2
d=/tmp/mut/s9; mkdir -p $d; [ -d $d/repo ] || cp -a /repo $d/repo
mkdir -p $d/verif; (cd /verif && tar cf - --exclude=./seeded --exclude=./evidence .) | tar xf - -C $d/verif; mkdir -p $d/verif/evidence
git -C $d/repo fetch -q /repo HEAD; git -C $d/repo reset -q --hard FETCH_HEAD
python3 - $f $id $d <<'P'
import sys
ns={}; exec(open(sys.argv[1]).read(),ns)
for m in ns['M']:
    if m[0]==sys.argv[2]:
        for e in m[2]:
            p=sys.argv[3]+'/repo/'+e[0]; t=open(p).read(); assert t.count(e[1])==(e[3] if len(e)>3 else 1),(e[1][:40],t.count(e[1])); open(p,'w').write(t.replace(e[1],e[2]))
P
/tmp/mut/ns.sh $d "$@"
