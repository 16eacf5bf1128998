#!/bin/bash
# newseed.sh <id> <property> <file> < edit block, then @@H header @@P demo.py @@N needs @@B breaks
id=$1; prop=$2; file=$3
S=/verif/seeded/$id; mkdir -p $S
cd /tmp/w/seed && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
python3 - "$S" "$prop" "$file" <<'P' || exit 1
import sys, re, json
P
python3 -c '
import sys, re, json
S, prop, file = sys.argv[1:]
t = sys.stdin.read()
parts = re.split(r"^@@([HPNB])\n", t, flags=re.M)
edit = parts[0]; d = dict(zip(parts[1::2], parts[2::2]))
for blk in edit.split("\n##FILE "):
    if blk is not edit and "\n" in blk and not edit.startswith(blk):
        file, blk = blk.split("\n", 1)
    s = open(file).read()
    for b in blk.split("\n#####\n"):
        o, n = b.split("\n=====\n"); o = o.strip("\n"); n = n.strip("\n")
        assert s.count(o) == 1, (s.count(o), o)
        s = s.replace(o, n)
    open(file, "w").write(s)
if "H" in d: open(S + "/demo.h", "w").write(d["H"])
open(S + "/demo.py", "w").write(d["P"])
json.dump({"property": prop, "needs": d["N"].strip(), "what_it_breaks": d["B"].strip()}, open(S + "/meta.json", "w"), indent=1)
' "$S" "$prop" "$file" || exit 1
exec bash /verif/tools/mkseed.sh $id
