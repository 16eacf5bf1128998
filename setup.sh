#!/bin/bash
# Nothing to build ahead of time: every check generates and compiles what it
# needs from /repo.  Check that the tools are there.
set -e
cd "$(dirname "$0")"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
"$py" -c 'import sys, sysconfig; assert sys.version_info[0] == 3'
command -v g++ >/dev/null
mkdir -p evidence replays
