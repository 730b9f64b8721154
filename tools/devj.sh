#!/bin/bash
# devj.sh PKG [harness args]: as dev.sh, in 8 processes; the failures go to .build/dev/PKG.out
. /verif/tools/env.sh
D=/verif/.build/dev
PKG=$1; shift
rm -f $D/h-$PKG; T=1 /verif/tools/dev.sh $PKG -only nothing >/tmp/devj.log 2>&1; [ -f $D/h-$PKG ] || { cat /tmp/devj.log; exit 2; }
cd $D || exit 2
export VERIF_EXPORTS=$D/exports.txt VERIF_SCRATCH=$D/scratch VERIF_MAXVIOL=${V:-100000}
P=${PROP:-$(echo $PKG | tr a-z A-Z)}
rm -f $D/$PKG.out.*
for i in 0 1 2 3 4 5 6 7; do
  timeout ${T:-900} ./h-$PKG -prop $P -known known.json -shard $i -of 8 "$@" > $D/$PKG.out.$i 2>&1 &
done
wait
cat $D/$PKG.out.? > $D/$PKG.out
grep -a ' cases=.*complete=' $D/$PKG.out | grep -v '^  FAIL' | awk '{k=$1; for(i=2;i<=NF;i++){ if($i ~ /^cases=/){split($i,a,"=");n=a[2]} if($i !~ /=/) k=k" "$i; if($i ~ /^viol=/){split($i,a,"=");v=a[2]} if ($i ~ /^nontrivial=/){split($i,a,"=");t=a[2]} if($i=="complete=false")inc[k]=1} if(NR>0&&k!=""){if(!(k in s))o[++m]=k; s[k]+=n;w[k]+=v;x[k]+=t}; n=0;v=0;t=0} END{for(i=1;i<=m;i++)print o[i],"cases="s[o[i]],"nontrivial="x[o[i]],"viol="w[o[i]],(inc[o[i]]?"INCOMPLETE":"")}'
