#!/bin/bash
# Nothing to fetch. Generated build products live in /verif/build (git-ignored);
# each check rebuilds what it needs there from /repo's working tree.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
mkdir -p evidence replays build
"$PY" -c 'import sys; sys.path.insert(0, "."); import simpy.runner' || exit 1
