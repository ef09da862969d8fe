#!/bin/bash
# trybug.sh ID...: build, test, demonstrate and check each planted bug, in a private
# mount namespace where a copy of /repo is bound over /repo.
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  w=/tmp/pl-$id
  rm -rf "$w"; cp -a /repo "$w"; cp -a "$V/seeded/$id" "$w.bug"
  prop=$(python3 -c "import json,sys;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  timeout -k 5 1500 unshare -m bash -c "
    mount --bind $w /repo; cd /repo; git checkout -q -- .
    bash /opt/vp/build.sh >/tmp/pl-$id.build 2>&1 || { echo '$id: CLEAN BUILD FAILS'; exit; }
    timeout 300 bash $w.bug/demo.sh >/tmp/pl-$id.demo0 2>&1; d0=\$?
    git apply $w.bug/patch.diff || { echo '$id: DOES NOT APPLY'; exit; }
    bash /opt/vp/build.sh >/tmp/pl-$id.build 2>&1 || { echo '$id: BUILD FAILS'; exit; }
    timeout 300 bash $w.bug/demo.sh >/tmp/pl-$id.demo1 2>&1; d1=\$?
    [ -n \"\$NOTEST\" ] || { bash /opt/vp/test.sh /tmp/pl-$id.json >/dev/null 2>&1
    python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/pl-$id.json'))
m=b-set(o['passed']); print('$id: tests', 'ok' if not m else 'BROKEN %s' % sorted(m)[:8])
P
    }
    cd $V; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 checks/$prop.py >/tmp/pl-$id.check 2>&1; r=\$?
    echo \"$id: demo clean=\$d0 patched=\$d1; check $prop exit \$r \$(grep -c ^VIOLATION /tmp/pl-$id.check)\"
  "
  rm -rf "$w" "$w.bug"
done
