#!/usr/bin/env python3
"""mkseed.py SPEC.py: write seeded/<id>/ from a list of edits (SPEC defines S, a list of dicts)."""
import sys,os,subprocess,tempfile,json,shutil
ns={}
exec(open(sys.argv[1]).read(),ns)
GO='''#!/bin/bash
# Runs the test beside this file inside the package it exercises.
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%(pkg)s/zz_demo_test.go\\": \\"$d/demo_test.go\\"}}" > "$t/overlay.json"
cd "$PWD" && TMPDIR="$t" HOME="$t" go test -overlay "$t/overlay.json" -vet=off -count=1 -run 'TestDemo' ./%(pkg)s
'''
KIT=open('/verif/tools/demokit.go.txt').read()
for s in ns['S']:
    if 'kit' in s: s['pkg']='pkg/ticat'; s['test']=KIT+s['kit']
    w=tempfile.mkdtemp(prefix='mk.')
    subprocess.check_call('git -C /repo archive HEAD | tar -x -C %s; cd %s; git init -q; git add -A; git -c user.email=a@b -c user.name=n commit -qm x'%(w,w),shell=True)
    for f,old,new in s['edits']:
        p=os.path.join(w,f); t=open(p).read()
        assert t.count(old)==1,(s['id'],f,t.count(old),old)
        open(p,'w').write(t.replace(old,new))
    diff=subprocess.check_output(['git','-C',w,'diff']).decode()
    d='/verif/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    if 'test' in s:
        open(d+'/demo_test.go','w').write(s['test'].lstrip())
        open(d+'/demo.sh','w').write(GO%s)
    else: open(d+'/demo.sh','w').write(s['demo'].lstrip())
    os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(w)
    print(s['id'])
