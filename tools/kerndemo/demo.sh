#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
exec timeout 250 "$PY" "$here/demo.py"
