#!/bin/bash
# check.sh PROPERTY [--thorough]
. /opt/vp/env.sh
unset PYTHONPATH
cd "$(dirname "$0")" || exit 2
exec "$PY" harness/check.py "$@"
