#!/bin/bash
# confirm.sh ID [check]: demonstration without and with the change, the stable tests with it, and (with "check") the property's quick check
ID=$1; S=${SEEDS:-/verif}/seeded/$ID; D=/tmp/w/conf_$ID; rm -rf $D; mkdir -p $D; git -C /repo archive HEAD | tar x -C $D; cd $D
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
bash $S/demo.sh > $D.demo0 2>&1; a=$?
git apply $S/patch.diff || { echo "$ID: does not apply"; exit 1; }
bash $S/demo.sh > $D.demo1 2>&1; b=$?
if [ -z "$NOTEST" ]; then
MPLBACKEND=Agg timeout 900 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 4 --timeout=300 -o junit_family=xunit2 --junitxml=$D.xml > $D.test 2>&1
python3 /opt/vp/results.py $D.json junit:$D.xml > /dev/null 2>&1
t=$(python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json"))["stable"]; r=json.load(open("$D.json"))
ok=set(r.get("passed",[])) if isinstance(r.get("passed"),list) else {k for k,v in r.items() if v=="passed"}
print(len([x for x in b if x not in ok]))
P
)
fi
c=-
if [ "$2" = check ]; then P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])"); cd ${SEEDS:-/verif}; VX_REPO=$D timeout 900 python3 check.py $P --tier quick > $D.check 2>&1; c="$?: $(grep rejected $D.check | head -1 | cut -c1-160)"; fi
echo "$ID: demo $a -> $b, stable tests failing ${t:--}, check $c"
rm -rf $D
