#!/bin/bash
# seed.sh SLOT ID CHECK...: in a private copy of /repo mounted over /repo, applies
# seeded/ID, runs the stable tests, the demonstration (with and without) and the checks
slot=$1; id=$2; shift 2
W=/tmp/sw/$slot
mkdir -p /tmp/sw
[ -d $W/repo ] || { mkdir -p $W; cp -a /repo $W/repo; }
git -C $W/repo fetch -q /repo HEAD 2>/dev/null && git -C $W/repo reset -q --hard FETCH_HEAD
rm -rf $W/verif; mkdir -p $W/verif; (cd /verif && tar cf - --exclude=.build --exclude=.git --exclude=out . ) | tar xf - -C $W/verif
D=/verif/seeded/$id
exec unshare -rm bash -s "$id" "$@" <<EOS
mount --bind $W/repo /repo; mount --bind $W/verif /verif
cd /repo
id="\$1"; shift
[ -n "$NOBASE" ] || { bash $D/demo.sh > /tmp/sw/$slot.base 2>&1; echo "\$id base demo exit \$?"; }
git apply --check $D/patch.diff && git apply $D/patch.diff || { echo "\$id PATCH FAILS"; exit 1; }
bash /opt/vp/test.sh /tmp/sw/$slot.json > /tmp/sw/$slot.test 2>&1
echo "\$id tests ok: \$(grep -c '\.\.\. ok' /tmp/sw/$slot.test)"
bash $D/demo.sh > /tmp/sw/$slot.demo 2>&1; echo "\$id bug demo exit \$?  \$(grep -v '^note\|^\$\|stack backtrace' /tmp/sw/$slot.demo | tail -3 | cut -c1-200 | tr '\n' ' ')"
unset VERIF_TARGET CARGO_TARGET_DIR
cd /verif
for k in "\$@"; do
  VERIF_SEED=1 timeout 900 python3 run.py \$k > /tmp/sw/$slot.\$k 2>&1; echo "\$id \$k exit \$? \$(grep -m1 -A1 VIOLATION /tmp/sw/$slot.\$k | cut -c1-220 | tr '\n' ' ')"
done
git -C /repo checkout -q -- .
EOS
