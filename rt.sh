#!/bin/bash
# run the repository's own tests (of RT_REPO, default /repo) and list anything of the stable set that fails
R=${RT_REPO:-/repo}
out=$(mktemp); rep=$(mktemp -d)
( export LC_ALL=C.UTF-8 PYTHONHASHSEED=0 PYTHONPATH=$R PYTHONDONTWRITEBYTECODE=1 PIP_NO_INDEX=1 OPENBLAS_NUM_THREADS=1
cd $R && /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors \
    --ignore=tests/pytracer/test_render.py -o junit_family=xunit2 --junitxml="$rep/junit.xml"
/usr/bin/python3 /opt/vp/results.py "$out" "junit:$rep/junit.xml" ) >/dev/null 2>&1
python3 - $out <<'P'
import json,sys
a=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
bad=set(b['stable'])-set(a['passed'])
print('passed',len(a['passed']),'failed',len(a['failed']),'stable missing',len(bad),sorted(bad)[:5])
P
rm -f "$out"; rm -rf "$rep"
