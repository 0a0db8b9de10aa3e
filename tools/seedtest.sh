#!/bin/bash
# seedtest.sh ID [check-id...]: development aid. Tries a planted bug in private
# copies of /repo and /verif (bind-mounted in a mount namespace of its own):
# demo on the clean tree, apply, build, stable tests, demo, checks.
ID=$1; shift
V0=${VERIF_SRC:-/verif} R0=${REPO_SRC:-/repo}   # working copies to try
D=$V0/seeded/$ID
W=$(mktemp -d /tmp/seed.XXXXXX)
trap 'rm -rf "$W"' EXIT
CH="$*"
[ -n "$CH" ] || CH=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cp -a /repo $W/repo
[ $R0 = /repo ] || git -C $W/repo pull -q $R0
mkdir $W/verif
(cd $V0 && tar cf - --exclude=./build/san --exclude=./evidence --exclude=./.git . ) | tar xf - -C $W/verif
mkdir -p $W/verif/evidence $W/demo
cp $D/patch.diff $W/patch.diff; cp -a $D/. $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
export W D CH ID
unshare -m bash -c '
mount --bind $W/repo /repo; mount --bind $W/verif /verif
cd /repo
git checkout -q -- . ; bash /opt/vp/build.sh >$W/b0 2>&1 || { echo "$ID base build failed"; tail -5 $W/b0; exit 1; }
bash $W/demo/demo.sh >$W/d0 2>&1; r0=$?
git apply $W/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
bash /opt/vp/build.sh >$W/b1 2>&1 || { echo "$ID: build fails"; grep -m5 error $W/b1; exit 1; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1
miss=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\")); t=json.load(open(\"$W/t.json\"))
print(sorted(set(b[\"stable\"])-set(t[\"passed\"]))[:4])")
else miss=skipped; fi
bash $W/demo/demo.sh >$W/d1 2>&1; r1=$?
res=""
for c in $CH; do
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 /verif/lib/run.py $c >$W/c.$c 2>&1; rc=$?
  res="$res $c:rc=$rc$(grep -q "VIOLATION property=$c" $W/c.$c && echo ,VIOLATION)"
  [ -n "$V" ] && head -${V} $W/c.$c
done
echo "$ID demo clean=$r0 patched=$r1 broken-tests=$miss checks:$res"
[ $r0 = 0 ] || tail -5 $W/d0
[ $r1 != 0 ] || tail -5 $W/d1
' 
