#!/bin/bash
# mut.sh ID FILE 'python-expr on s' : run check ID on a copy of /repo with FILE edited (development aid)
W=$(mktemp -d /tmp/mut_XXXXXX); cp -a /repo/Source /repo/Tables $W/ 2>/dev/null
python3 - "$W/Source/$2" "$3" "$4" <<'P'
import sys
p,a,b=sys.argv[1:4]
s=open(p).read()
assert s.count(a)>=1, 'pattern not found'
s=s.replace(a,b,1)
open(p,'w').write(s)
P
[ $? = 0 ] && QV_REPO=$W QV_MUT=1 "$(dirname "$0")/../check" $1 2>&1 | tail -${5:-4}
rm -rf "$W"
