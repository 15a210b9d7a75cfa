#!/bin/bash
# check.sh PID quick|thorough   -- explore property PID on the code in /repo's working tree.
# A fresh byte-code prefix makes sure the current sources are what runs; /repo is only read.
cd "$(dirname "$0")" || exit 2
tmp=$(mktemp -d /tmp/mc.XXXXXX) || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$tmp" PYTHONHASHSEED=0 PYTHONPATH="${MC_REPO:-/repo}"
/opt/venv/bin/python -B -W ignore mc/run.py "$@"
rc=$?
rmdir "$tmp" 2>/dev/null || rm -rf "$tmp"
exit $rc
