#!/bin/bash
# plant.sh ID [notest]: validates seeded/ID in overlays over /repo, /verif and the wine prefix (nothing real is written), and runs its property's check on it.
ID=$1; S=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
T=$(mktemp -d /var/tmp/plant.XXXXXX); export ID S P T NOTEST=$2
mkdir -p $T/m
unshare -m bash -c '
mount -t tmpfs none $T/m; for d in repo verif wine; do mkdir -p $T/m/$d.u $T/m/$d.w; done; mkdir $T/m/tmp
mount -t overlay overlay -o lowerdir=/repo,upperdir=$T/m/repo.u,workdir=$T/m/repo.w /repo || exit 9
mount -t overlay overlay -o lowerdir=/verif,upperdir=$T/m/verif.u,workdir=$T/m/verif.w /verif || exit 9
mount -t overlay overlay -o lowerdir=/opt/vp/wine,upperdir=$T/m/wine.u,workdir=$T/m/wine.w /opt/vp/wine || exit 9
mount --bind $T/m/tmp /tmp
cd /repo; git checkout -q -- . 2>/dev/null
R="$ID:"
if [ -z "$NOTEST" ]; then bash /opt/vp/build.sh >/tmp/b0.log 2>&1 || { echo "$R clean build FAILED"; exit; }
  bash $S/demo.sh >/tmp/d0.log 2>&1; c=$?; R="$R demo-clean=$c"; [ $c = 0 ] || tail -5 /tmp/d0.log; fi
git apply $S/patch.diff 2>/tmp/ap.log || { cat /tmp/ap.log; echo "$R patch does NOT apply"; exit; }
if [ -z "$NOTEST" ]; then
  bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1 || { tail -5 /tmp/t.log; echo "$R build FAILED"; exit; }
  R="$R tests: $(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\")); b=b.get(\"stable\",b.get(\"passed\"))
p=set(json.load(open(\"/tmp/o.json\"))[\"passed\"]); m=[x for x in b if x not in p]; print(len(b)-len(m), \"missing\", m[:5])")"
  bash $S/demo.sh >/tmp/d1.log 2>&1; R="$R demo-patched=$?"; R="$R [$(tail -1 /tmp/d1.log)]"
fi
cd /verif; s=$(date +%s); timeout 900 python3 check.py $P quick >/tmp/c.log 2>&1; c=$?
R="$R check $P=$c $(( $(date +%s) - s ))s: $(grep -c "^VIOLATION property=$P" /tmp/c.log) violations"
echo "$R"; [ $c = 1 ] && grep -A1 VIOLATION /tmp/c.log | head -3 | cut -c1-300 || tail -3 /tmp/c.log | cut -c1-300
'
rmdir $T/m $T 2>/dev/null
