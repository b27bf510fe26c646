#!/bin/bash
# usage: ./check.sh PROPERTY [quick|thorough] [options of engine/run.py]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
p="$1"; shift
t="${VERIF_TIER:-quick}"
case "${1:-}" in quick|thorough) t="$1"; shift;; esac
exec /opt/venv/bin/python engine/run.py "$p" --tier "$t" "$@"
