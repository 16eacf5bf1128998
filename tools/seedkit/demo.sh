#!/bin/sh
# cwd: the repository.  Generates, compiles and runs a small module in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
PY=/opt/venv/bin/python
[ -x $PY ] || PY=python3
R=$(pwd)
cp "$D/demo.h" "$T/" 2>/dev/null
cp "$D/demo.py" "$T/"
cd "$T" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$R" $PY -c '
import sys, demo
from pybindgen import FileCodeSink
with open("m.cc", "w") as f:
    demo.module().generate(FileCodeSink(f))
' || exit 1
INC=$($PY -c 'import sysconfig; print(sysconfig.get_paths()["include"])')
g++ -std=c++17 -O0 -w -shared -fPIC -I"$INC" -I. m.cc -o m.so || exit 1
timeout 120 $PY -c '
import demo, m
demo.test(m)
'
