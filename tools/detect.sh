#!/bin/bash
# detect.sh ID...: does the check of its property report the planted bug? Works on copies in /tmp/dt.
mkdir -p /tmp/dt/verif
[ -d /tmp/dt/repo ] || git clone -q /repo /tmp/dt/repo
git -C /tmp/dt/repo checkout -q -- . ; git -C /tmp/dt/repo fetch -q /repo HEAD && git -C /tmp/dt/repo reset -q --hard FETCH_HEAD
rsync -a --delete --exclude target --exclude .git --exclude seeded /verif/ /tmp/dt/verif/ 2>/dev/null || { for f in checks.py run_check.py kani kani-int tools verus; do [ -e /verif/$f ] && tar -C /verif --exclude=target -cf - $f | tar -C /tmp/dt/verif -xf -; done; mkdir -p /tmp/dt/verif/evidence /tmp/dt/verif/replays; cp /verif/*.json* /verif/*.py /tmp/dt/verif/; }
grep -rl '/repo' --include=Cargo.toml --include='*.py' /tmp/dt/verif | xargs sed -i 's#\([^t]\)/repo\b#\1/tmp/dt/repo#g'
cd /tmp/dt/verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /tmp/dt/repo apply /verif/seeded/$id/patch.diff || { echo $id NOAPPLY; continue; }
  s=$(date +%s); python3 run_check.py $p > /tmp/dt/detect.$id 2>&1; rc=$?; e=$(date +%s)
  git -C /tmp/dt/repo checkout -q -- .
  echo "$id $p rc=$rc $((e-s))s $(grep -m1 VIOLATION /tmp/dt/detect.$id | cut -c1-150)"
done
