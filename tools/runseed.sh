#!/bin/bash
# runseed.sh <id> [Cxx...]: runs the checks (default: the seed's property) with the seed applied to a scratch copy
# that is mounted over /repo in a mount namespace of its own.
id=$1; shift
S=/verif/seeded/$id; W=/tmp/w/seed
P=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
cd $W || exit 1
git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git apply $S/patch.diff || exit 1
trap "git -C $W checkout -q -- ." EXIT
for p in $P; do
  unshare -m sh -c "mount --bind $W /repo && cd /verif && ./check $p" >/tmp/w/rs.$id.log 2>&1
  echo "$id $p exit $? $(grep -c ^VIOLATION /tmp/w/rs.$id.log) $(tail -1 /tmp/w/rs.$id.log)"; done
