#!/bin/bash
# Nothing to build: the checks load /repo/src directly.  Confirms that the interpreter and the solver are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
echo '(check-sat)' | z3 -in | grep -q '^sat$' && /opt/venv/bin/python -c 'import numpy, scipy, sympy, networkx' && echo ready
