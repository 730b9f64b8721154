#!/bin/bash
# dev.sh PKG [harness args]: rebuild one harness in .build/dev and run it in one process
. /verif/tools/env.sh
D=/verif/.build/dev; mkdir -p $D
PKG=$1; shift
python3 /verif/rt/mkoverlay.py /opt/veriftools/go1.25.14 $D/ov || exit 2
PYTHONPATH=/verif/lib python3 -c "
import common,shutil,os
w=common.Work.__new__(common.Work); w.src='$D/src'; os.makedirs(w.src,exist_ok=True); w.replaces={'github.com/lerenn/asyncapi-codegen':'${REPO:-/repo}'}; w.write_mod()"
cp -r /verif/mc/. $D/src/
R=; [ -n "$RACE" ] && R=-race
(cd $D/src && go build $R -overlay ../ov/overlay.json -o ../h-$PKG$R ./$PKG) || exit 2
cd $D
(cd $D/src && PYTHONPATH=/verif/lib python3 -c "
import common
w=common.Work.__new__(common.Work); w.src='$D/src'; w.dir='$D'; common.exports(w)") || exit 2
export VERIF_EXPORTS=$D/exports.txt VERIF_SCRATCH=$D/scratch
P=${PROP:-$(echo $PKG | tr a-z A-Z)}
PYTHONPATH=/verif/lib python3 -c "import common,json; json.dump([m for m,_ in common.known_findings('$P')],open('$D/known.json','w'))"
timeout ${T:-120} ./h-$PKG$R -prop $P -known known.json "$@"
