#!/bin/bash
# usage: try.sh PATCH ID [args]   run a check against a scratch copy with PATCH
P=$(realpath "$1"); shift
D=$(mktemp -d /tmp/try.XXXXXX)
cp -a /repo/src "$D/src"
(cd "$D" && git init -q . && git apply "$P") || exit 9
cd "$(dirname "$0")/.."
SIM_SRC="$D/src" /opt/venv/bin/python3 sim/main.py "$@"
rc=$?
rm -rf "$D"
exit $rc
