#!/bin/sh
# re-learns which back end discharges which obligation; only the order in which the back ends are tried depends on it
cd "$(dirname "$0")/.." || exit 1
[ $# = 0 ] && set -- $(python3 -c "import sys;sys.path.insert(0,'vt');sys.dont_write_bytecode=True;import props;print(*sorted(props.P))")
for p; do VT_TIME=1 VT_HINTS=/tmp/hints.$p.json python3 vt/check.py $p; done
python3 - "$@" <<'P'
import json,sys,os
h=json.load(open("vt/hints.json")) if os.path.exists("vt/hints.json") else {}
for p in sys.argv[1:]: h.update(json.load(open("/tmp/hints.%s.json"%p)))
json.dump(h,open("vt/hints.json","w"),indent=0,sort_keys=True)
P
