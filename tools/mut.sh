#!/bin/bash
# mut.sh ID FILE OLD NEW: runs check ID against a copy of /repo with OLD replaced by NEW (first occurrence unless OCC=k)
D=/tmp/w/mut$$; rm -rf $D; mkdir -p $D; cp -a /repo/. $D/
python3 - "$D/$2" "$3" "$4" <<'P' || { rm -rf $D; exit 9; }
import sys,os
p,o,n=sys.argv[1:4]; o=o.encode().decode('unicode_escape'); n=n.encode().decode('unicode_escape')
s=open(p).read(); k=int(os.environ.get("OCC","1"))
if s.count(o)<k: print("NOT FOUND", o); sys.exit(1)
i=-1
for _ in range(k): i=s.index(o,i+1)
open(p,'w').write(s[:i]+n+s[i+len(o):])
P
git -C $D diff | grep '^[+-]' | grep -v '^+++\|^---'
cd /verif; VX_REPO=$D timeout 900 python3 check.py $1 --tier ${TIER:-quick} 2>&1 | tail -${N:-5}
rm -rf $D
