#!/bin/sh
# Nothing has to be built: make sure the interpreter and the code under test are usable.
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p evidence out
PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 "$PY" -c "from dst import sim; sim.prepare('/repo'); from dst import profiles, runner; print('ready:', len(profiles.PROFILES), 'properties')"
