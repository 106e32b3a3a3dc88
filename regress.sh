#!/bin/bash
# Regression for /repo changes: stable tests plus tests/test_gsf.py in a scratch copy with stub example files.
bash /opt/vp/test.sh /tmp/out.json > /tmp/test.log 2>&1
python3 - <<'E'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','stable','tests'):
            if k in x: return set(x[k]) if isinstance(x[k],list) else set(k for k,v in x[k].items() if v in ('passed',True,'pass'))
    return set(x)
miss=names(b)-names(o); print("stable missing:",sorted(miss)[:10], len(names(b)))
E
S=/tmp/scr_regress; mkdir -p $S; cp -a /repo/. $S/; cp -n /tmp/scr/repo/examples/* $S/examples/ 2>/dev/null
( cd $S && PYTHONPATH=$S PYTHONNOUSERSITE=1 /opt/venv/bin/python -m pytest -q -x --maxfail=20 tests/test_gsf.py 2>&1 | tail -5 )
/bin/rm -rf /tmp/scr_regress
