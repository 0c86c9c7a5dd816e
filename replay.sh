#!/bin/sh
# Re-run one recorded case of the replay harness on the real code: replay.sh PROP SEED CASE
cd "$(dirname "$0")" || exit 2
exec python3 check.py --case "$@"
