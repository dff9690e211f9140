#!/bin/bash
# tryseed.sh ID...: does the stable test suite still pass with the planted bug? (in /tmp/bt/repo)
for id in "$@"; do
  git -C /tmp/bt/repo checkout -q -- . ; git -C /tmp/bt/repo fetch -q /repo HEAD && git -C /tmp/bt/repo reset -q --hard FETCH_HEAD
  [ "$id" = clean ] || git -C /tmp/bt/repo apply /verif/seeded/$id/patch.diff || { echo $id NOAPPLY; continue; }
  bash /tmp/bt/build.sh > /tmp/bt/$id.build 2>&1 || { echo $id NOBUILD; continue; }
  bash /tmp/bt/test.sh /tmp/bt/$id.json > /tmp/bt/$id.log 2>&1
  python3 - $id <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/bt/%s.json'%sys.argv[1]))
def names(d):
    for k in ('passed','pass','stable','tests'):
        if k in d: return set(d[k])
    raise SystemExit(str(list(d)[:9]))
miss=names(b)-names(o)
print(sys.argv[1], 'TESTS OK' if not miss else 'KILLED by %d: %s' % (len(miss), sorted(miss)[:4]))
PY
done
git -C /tmp/bt/repo checkout -q -- .
