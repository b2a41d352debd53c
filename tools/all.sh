#!/bin/bash
# all.sh TIER [ID...]: runs the checks one after another and prints one line each.
here="$(cd "$(dirname "$0")/.." && pwd)"
tier=$1; shift
ids="$*"
[ -z "$ids" ] && ids=$(python3 -c "import json;print(' '.join(sorted(c['property'] for c in json.load(open('$here/MANIFEST.json'))['checks'])))")
for i in $ids; do
  t0=$(date +%s)
  out=$("$here/check.sh" $i -tier $tier 2>&1); rc=$?
  t1=$(date +%s)
  python3 - "$i" $rc $((t1-t0)) "$here/evidence/$i.json" <<P
import json,sys
i,rc,t,p=sys.argv[1:]
try:
    e=json.load(open(p)); c=e.get('coverage',e)
    print(i,'rc',rc,t+'s','exhaustive',c.get('exhaustive',e.get('exhaustive')),flush=True)
except Exception as x: print(i,'rc',rc,t,x,flush=True)
P
  [ $rc -ne 0 ] && echo "$out" | tail -5
done
