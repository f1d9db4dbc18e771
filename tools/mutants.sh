#!/bin/bash
# mutants.sh SLOT NSLOTS LIST OUT SCRIPTS: mutate.py worker in a private copy of /repo and /verif
slot=$1; W=/tmp/mut/$slot
mkdir -p $W
[ -d $W/repo ] || cp -a /repo $W/repo
git -C $W/repo fetch -q /repo HEAD && git -C $W/repo reset -q --hard FETCH_HEAD
rm -rf $W/verif; mkdir -p $W/verif; (cd /verif && tar cf - --exclude=.build --exclude=.git --exclude=out --exclude=seeded . ) | tar xf - -C $W/verif
exec unshare -rm bash -s "$@" <<'EOS'
mount --bind /tmp/mut/$1/repo /repo; mount --bind /tmp/mut/$1/verif /verif
cd /repo; exec python3 /verif/tools/mutate.py worker "$@"
EOS
