#!/bin/bash
# done.sh Cnn "fix commit subject" "what failed": commit the repair in /repo, record it, run the check, commit /verif
set -e
cd /repo
if [ -n "$2" ]; then
  test -z "$(gofmt -l pkg/core pkg/mods pkg/cli pkg/ticat pkg/utils 2>/dev/null | grep -F "$(git diff --name-only)" || true)"
  bash /opt/vp/build.sh >/dev/null 2>&1 && bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
  python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/o.json'))
names=b if isinstance(b,list) else b['stable']
miss=[n for n in names if n not in o['passed']]
print('tests missing:',miss); assert not miss"
  git commit -qam "fix: $2"
  (cd /verif && python3 tools/kf.py fixed $1 "$(git -C /repo log -1 --format=%h) $3")
fi
cd /verif
python3 tools/props.py; python3 tools/manifest.py; python3 tools/design.py
./check.sh $1 quick | tail -12 | cut -c1-300; echo rc=${PIPESTATUS[0]}
git add -A; git commit -qm "$1"; git status --short
