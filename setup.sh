#!/bin/bash
# Builds the symbolic executor (also done on demand by check.py).
cd "$(dirname "$0")" && python3 - <<'PY'
import subprocess,sys
sys.argv=['check.py']
src=open('check.py').read().rsplit('\nmain()',1)[0]
g={'__file__':'check.py','__name__':'setup'}
exec(compile(src,'check.py','exec'),g)
print(g['engine']())
PY
