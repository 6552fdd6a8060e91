#!/bin/bash
# ns.sh SLOT cmd...: run a command with SLOT/repo as /repo and SLOT/verif as /verif, in mount and user namespaces of
# its own, with a /dev of its own: a mutant that renames files into place once replaced /dev/full of the sandbox.
d=$1; shift
exec unshare -Urm bash -c '
set -e
d=$1; shift
mount --bind "$d/repo" /repo; mount --bind "$d/verif" /verif
mkdir -p "$d/dev"; mount -t tmpfs none "$d/dev"
for n in null zero full random urandom tty; do touch "$d/dev/$n"; mount --bind "/dev/$n" "$d/dev/$n"; done
mkdir "$d/dev/shm" "$d/dev/pts"; mount -t devpts -o newinstance,ptmxmode=0666 none "$d/dev/pts"; ln -s pts/ptmx "$d/dev/ptmx"; ln -s /proc/self/fd "$d/dev/fd"; for i in 0:stdin 1:stdout 2:stderr; do ln -s "/proc/self/fd/${i%:*}" "$d/dev/${i#*:}"; done
mount --rbind "$d/dev" /dev
for n in null zero full random urandom tty; do mount --bind "$d/dev/$n" "/dev/$n"; done
cd /verif
set +e
eval "$*"' ns "$d" "$@"
