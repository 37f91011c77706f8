#!/bin/bash
# tools/seed.sh ID...   confirm planted bugs (seeded/ID) in a private mount namespace: demo passes on the unchanged tree,
# the patched tree builds and passes the stable tests, the demo then fails. NOTEST=1 skips the tests.
# Needs a sandbox in which mounts are permitted.
V=$(dirname "$(dirname "$(realpath "$0")")")
for id in "$@"; do
  (
  W=$(mktemp -d /tmp/seedXXXXXX)
  cp -a /repo "$W/repo"; cp -a "$V/seeded/$id" "$W/sd"
  mkdir "$W/tmp" "$W/root" "$W/vp" "$W/rootup"
  unshare -m bash -c '
    W=$1; id=$2
    cp -a /opt/vp/. $W/vp/
    cp -a /root/.bashrc /root/.profile $W/root/ 2>/dev/null
    mount --bind $W/repo /repo && mount --bind $W/vp /opt/vp && mount --bind $W/root /root || exit 9
    cp -a $W/sd /opt/vp/sd_$id
    export SD=/opt/vp/sd_$id
    mount --bind $W/tmp /tmp || exit 9; chmod 1777 /tmp
    bash /opt/vp/build.sh >/tmp/b1 2>&1 || { echo "$id: base build failed"; exit 1; }
    (cd /repo && timeout 300 bash $SD/demo.sh >/tmp/d1 2>&1); r=$?
    [ $r = 0 ] || { echo "$id: demo fails on base ($r)"; tail -15 /tmp/d1; exit 1; }
    git -C /repo apply $SD/patch.diff || { echo "$id: does not apply"; exit 1; }
    bash /opt/vp/build.sh >/tmp/b1 2>&1 || { echo "$id: build failed"; tail -5 /tmp/b1; exit 1; }
    (cd /repo && timeout 300 bash $SD/demo.sh >/tmp/d2 2>&1); r=$?
    [ $r != 0 ] || { echo "$id: demo passes with the patch"; tail -15 /tmp/d2; exit 1; }
    echo "$id: demo ok (base 0, patched $r): $(tail -2 /tmp/d2 | tr "\n" " ")"
    if [ -z "$NOTEST" ]; then
      bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1
      python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\"));o=json.load(open(\"/tmp/out.json\"))
m=set(b[\"stable\"])-set(o[\"passed\"])
print(\"$id: tests\",\"OK\" if not m else \"BROKEN \"+str(m))"
    fi
  ' x "$W" "$id"
  rm -rf "${W:?}"
  )
done
