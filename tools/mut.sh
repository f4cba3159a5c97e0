#!/bin/bash
# mut.sh ID FILE 'python expression of (old, new)' [FILTER]: proves ID on a scratch copy with a textual change
rm -rf "/tmp/mut_$1"; cp -a /repo "/tmp/mut_$1"
python3 - "/tmp/mut_$1/src/pybgl/$2" "$3" <<'P' || exit 1
import sys
p=sys.argv[1]; s=open(p).read(); o,n=eval(sys.argv[2]); assert s.count(o)>=1,"not found"; open(p,'w').write(s.replace(o,n,1) if not s.count(o)>9 else s)
P
VERIF_REPO="/tmp/mut_$1" SHOW=${SHOW:-80} bash /verif/tools/p.sh "$1" ${4:+"$4"}
rm -rf "/tmp/mut_$1"
