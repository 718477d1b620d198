#!/bin/bash
# seedtest.sh ID...: validate planted changes in a scratch copy and run their check on it
. /opt/vp/env.sh
V=/verif
for id in "$@"; do
  s=$V/seeded/$id; w=$(mktemp -d /tmp/seed.XXXXXX)
  git -C /repo archive HEAD | tar -x -C $w; (cd $w; git init -q; git add -A; git -c user.email=a@b -c user.name=n commit -qm x)
  cp -r $s $w.demo; rm -f $w.demo/patch.diff $w.demo/meta.json
  r="$id:"
  (cd $w && go build -o bin/ticat ./pkg/main && bash $w.demo/demo.sh >$w.demo/clean.log 2>&1) && r="$r clean-ok" || { r="$r CLEAN-DEMO-FAILS"; tail -5 $w.demo/clean.log; }
  (cd $w && git apply $s/patch.diff) || r="$r NO-APPLY"
  (cd $w && go build ./... && go build -o bin/ticat ./pkg/main) || r="$r NO-BUILD"
  (cd $w && go test -vet=off -count=1 ./... 2>&1 | grep -q "^FAIL\|^--- FAIL") && r="$r TESTS-FAIL"
  (cd $w && rm -rf bin/ticat.data && bash $w.demo/demo.sh >$w.demo/bad.log 2>&1) && r="$r DEMO-PASSES-WITH-PATCH" || r="$r demo-fails-ok"
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  if [ -z "$NOCHECK" ]; then
    o=$(cd $V && VERIF_SEED=1 VERIF_REPO=$w timeout 900 ./check.sh $p quick 2>&1); rc=$?
    if [ $rc = 1 ] && echo "$o" | grep -q "^VIOLATION property=$p"; then r="$r CAUGHT"; else r="$r MISSED rc=$rc"; echo "$o" | tail -5; fi
  fi
  echo "$r"
  rm -rf "$w" "$w.demo"
done
