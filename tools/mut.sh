#!/bin/bash
# mut.sh FILE 'python-expr on s' CHECK...: apply a textual change to /repo, run the checks, undo.
f=/repo/$1; py=$2; shift 2
python3 - "$f" <<P || exit 9
import sys
p=sys.argv[1]; s=open(p).read(); o=s
$py
assert s!=o, "no change"
open(p,'w').write(s)
P
. /opt/vp/env.sh
(cd /repo && go build ./... ) || { git -C /repo checkout -- .; exit 8; }
[ -n "$TEST" ] && (cd /repo && go test -vet=off -tags=nolog -ldflags=-checklinkname=0 ./... 2>&1 | grep -v "no test files" | tail -15)
for c in "$@"; do /verif/check.sh $c 2>&1 | grep -E "VIOLATION|counterexample|^C[0-9]+:|panic|rejected" | head -8; done
git -C /repo checkout -- .
