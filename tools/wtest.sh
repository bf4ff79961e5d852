#!/bin/bash
# wtest.sh DIR OUT : run tests of a copy, list baseline tests that fail
. /opt/vp/env.sh
cd $1 || exit 1
export PYTHONPATH=$1/lib PYTHONDONTWRITEBYTECODE=1
rm -rf $1/result_images
/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n ${N:-8} --no-xvfb --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=$2.xml test > $2.log 2>&1
rm -f $2.json
python3 /opt/vp/results.py $2.json junit:$2.xml >/dev/null
python3 - $2.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def passed(x):
    for k in ('stable','passed'):
        if k in x:
            return set(x[k]) if isinstance(x[k],list) else {t for t,v in x[k].items() if v in('passed',True,'pass')}
    return {t for t,v in x.items() if v in('passed','pass',True)}
m=passed(b)-passed(r)
print('BASE',len(passed(b)),'MISSING',len(m),sorted(m)[:10])
P
