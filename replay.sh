#!/bin/bash
# replay.sh FILE  -- rebuilds from /repo and executes a recorded simulated run again. Exit 1 if the violation shows.
here=$(cd "$(dirname "$0")" && pwd)
v=$(sed -n 's/^# variant //p' "$1" | head -1); v=${v:-A}
t=$(mktemp -d /tmp/surfsim-replay.XXXXXX)
bash "$here/sim/build.sh" "$t" "$v" "$here/.build/obj" || exit 2
"$t/surfsim-$v" replay "$1"; rc=$?
rm -rf "$t"
exit $rc
