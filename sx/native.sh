#!/bin/bash
# native.sh OUTDIR [extra gcc flags]: links OUTDIR/replay from the natively compiled repository and harness
O=$1; shift
cd "$(dirname "$0")"
python3 - "$O" "$@" <<'PY'
import sys,subprocess
sys.path.insert(0,'.')
import buildbc
o=sys.argv[1]; fl=sys.argv[2:]
objs=buildbc.build("native",o,False,fl)
if not objs: sys.exit(2)
r=subprocess.run(["gcc","-fopenmp","-rdynamic"]+fl+objs+["-o",o+"/replay","-lm","-ldl"])
import os
for x in objs: os.unlink(x)
sys.exit(r.returncode)
PY
