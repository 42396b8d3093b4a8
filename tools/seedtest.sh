#!/bin/bash
# seedtest.sh ID [notest] : confirm a planted change in a scratch copy and run its property's check on it
# (development aid only: no check calls it)
ID=$1; S=/verif/seeded/$ID; W=/tmp/seedw_$$; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
trap 'cd /; rm -rf "/tmp/seedw_'$$'" "/tmp/seedo_'$$'" "/tmp/seedb_'$$'" "/tmp/seedd_'$$'"' EXIT
mkdir -p $W; (cd /repo && tar cf - --exclude=_build . ) | (cd $W && tar xf -); mkdir -p $W/_build; cp -a /repo/_build/ccache $W/_build/
cp -a /opt/vp /tmp/seedo_$$; sed -i "s#/repo#$W#g; s#/opt/vp#/tmp/seedo_$$#g" /tmp/seedo_$$/*.sh /tmp/seedo_$$/*.py
cp -a $S /tmp/seedd_$$; rm -f /tmp/seedd_$$/*.diff /tmp/seedd_$$/meta.json
cd $W; git checkout -q -- .; 
bash /tmp/seedo_$$/build.sh >/tmp/seedo_$$/b.log 2>&1 || { echo "$ID BASE BUILD FAILED"; exit 2; }
timeout 300 bash /tmp/seedd_$$/demo.sh >/tmp/seedo_$$/d0.log 2>&1; d0=$?
git apply $S/patch.diff || { echo "$ID patch does not apply"; exit 2; }
bash /tmp/seedo_$$/build.sh >/tmp/seedo_$$/b.log 2>&1 || { echo "$ID BUILD FAILED"; tail -5 /tmp/seedo_$$/b.log; exit 2; }
timeout 300 bash /tmp/seedd_$$/demo.sh >/tmp/seedo_$$/d1.log 2>&1; d1=$?
[ $d0 = 0 ] || tail -5 /tmp/seedo_$$/d0.log
T=skipped
if [ "$2" != notest ]; then
 bash /tmp/seedo_$$/test.sh /tmp/seedo_$$/t.json >/tmp/seedo_$$/t.log 2>&1
 T=$(python3 -c "
import json; b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-set(json.load(open('/tmp/seedo_$$/t.json'))['passed']); print('ok' if not b else 'LOST '+' '.join(sorted(b)[:4]))")
fi
cd /verif; C=none
if [ -f checks/$P.py ]; then
 VERIF_REPO=$W VERIF_BUILD=/tmp/seedb_$$ VERIF_EVIDENCE=/tmp/seedo_$$ timeout 900 python3-vt checks/$P.py --tier quick >/tmp/seedo_$$/c.log 2>&1; C=$?
 grep "^VIOLATION" /tmp/seedo_$$/c.log; grep "failed" /tmp/seedo_$$/c.log | head -3
fi
echo "$ID property=$P demo unpatched=$d0 patched=$d1 tests=$T check exit=$C"
