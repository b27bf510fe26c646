#!/bin/bash
# usage: ./replay.sh replays/FILE.json   runs one recorded counterexample on the unmodified code (exit 1: reproduced)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python engine/replay.py "$1"
