#!/bin/bash
# tools/fixcommit.sh "fix: message" : runs the tests of /repo and commits when the 253 stable ones pass
cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'E' || exit 1
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/t.json'))
def names(x):
    for k in ('passed','stable','tests','pass'):
        if isinstance(x.get(k),list): return set(x[k])
    raise SystemExit(str(x.keys()))
bad=names(b)-names(r); print(len(names(b)), 'broken:', sorted(bad)[:10]); raise SystemExit(1 if bad else 0)
E
git -C /repo status --short; git -C /repo commit -qam "$1" && git -C /repo log --oneline | head -1
