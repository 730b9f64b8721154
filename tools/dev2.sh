#!/bin/bash
# dev2.sh PXX [harness args]: regenerates the packages of PXX, builds its harness and runs it in one process
. /verif/tools/env.sh
P=$1; shift
PYTHONPATH=/verif/lib python3 - $P <<'P' || exit 2
import sys, common
p = sys.argv[1]
import os; common.REPO = os.environ.get("REPO", common.REPO)
w = common.Work("dev2" + p)
common.packages(w, p)
w.build("./" + p.lower(), "h", overlay=False)
P
D=/verif/.build/dev2$P
PYTHONPATH=/verif/lib python3 -c "import common,json; json.dump([m for m,_ in common.known_findings('$P')],open('$D/known.json','w'))"
cd $D && VERIF_MAXVIOL=${V:-100000} timeout ${T:-300} ./h -prop $P -known known.json "$@"
