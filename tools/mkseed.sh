#!/bin/bash
# mkseed.sh <id> [keep]: confirms the seed in /verif/seeded/<id>: passes the stable tests, demo fails with it and
# passes without it.  The change is the one in the scratch copy /tmp/w/seed (with keep: the one in patch.diff).
# /repo is not touched: the scratch copy is mounted over it in a mount namespace of its own.
id=$1; S=/verif/seeded/$id; W=/tmp/w/seed
[ -f $S/demo.sh ] || cp /verif/tools/seedkit/demo.sh $S/demo.sh
cd $W || exit 1
if [ -z "$2" ]; then git diff > $S/patch.diff; git checkout -q -- .
else git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD; fi
[ -s $S/patch.diff ] || { echo empty patch; exit 1; }
sh $S/demo.sh >/tmp/w/d0.log 2>&1 || { echo "demo fails on clean tree"; tail -5 /tmp/w/d0.log; exit 1; }
git apply $S/patch.diff || exit 1
trap "git -C $W checkout -q -- ." EXIT
if sh $S/demo.sh >/tmp/w/d1.log 2>&1; then echo "demo passes with patch"; exit 1; fi
tail -2 /tmp/w/d1.log
git blame -s $(git diff --name-only | head -1) >/tmp/w/blame 2>/dev/null
unshare -m sh -c "mount --bind $W /repo && cd /repo && bash /tmp/rt.sh" | sed -n 2p
