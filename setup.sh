#!/bin/bash
# Nothing to compile: rdtools is executed from /repo's source text at check time.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
/opt/venv/bin/python -W ignore -c "import dsim.env as e; e.ensure(); print('rdtools from', e.REPO)"
