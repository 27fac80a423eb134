#!/bin/bash
# short form of sx.sh
/verif/tools/sx.sh "$@" 2>&1 | grep -v "^checks" | python3 -c "
import sys,re
for l in sys.stdin:
    l=l.strip()
    if l.startswith('{'):
        d=eval(l); print({k:d.get(k) for k in ('paths','done','assumed','queries','solver_time','concretizations','insts')})
    else: print(l[:700])"
