#!/bin/bash
# Confirms planted bugs in scratch copies that are bind-mounted over /repo inside a
# user namespace: builds, passes the stable tests, demo passes without and fails with the patch.
# usage: bugtest.sh ID...   (results: /tmp/bt/ID/result)
for id in "$@"; do
  W=/tmp/bt/$id; rm -rf "$W"; mkdir -p "$W"
  cp -a /repo "$W/repo"; cp -a /opt/vp "$W/vp"; cp -a /opt/pycache "$W/pycache"; cp -a /opt/ccache "$W/ccache" 2>/dev/null || mkdir -p "$W/ccache"
  cp -a "/verif/seeded/$id" "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
  unshare -Urm bash -c "
    mount --bind $W/repo /repo && mount --bind $W/vp /opt/vp && mount --bind $W/pycache /opt/pycache && { mount --bind $W/ccache /opt/ccache; true; } || exit 9
    cd /repo
    timeout 300 bash $W/demo/demo.sh > $W/demo0.log 2>&1; echo demo0 \$?
    git apply /verif/seeded/$id/patch.diff || { echo applyfail; exit 9; }
    bash /opt/vp/build.sh > $W/build.log 2>&1; echo build \$?
    timeout 300 bash $W/demo/demo.sh > $W/demo1.log 2>&1; echo demo1 \$?
    bash /opt/vp/test.sh $W/tests.json > $W/test.log 2>&1; echo test \$?
  " > "$W/result" 2>&1
  python3 - "$W" >> "$W/result" <<'P'
import json,sys
try:
    d=json.load(open(sys.argv[1]+"/tests.json")); s=json.load(open("/opt/vp/BASELINE.json"))["stable"]
    ok=set(d.get("passed") or [k for k,v in d.items() if v in("passed",True)])
    print("stable_missing", [x for x in s if x not in ok])
except Exception as e: print("nores",e)
P
  echo "$id: $(tr '\n' ' ' < $W/result)"
  rm -rf "$W/repo" "$W/vp" "$W/pycache" "$W/ccache"
done
