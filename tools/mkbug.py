#!/usr/bin/env python3
"""Creates /verif/seeded/<id> from a description file and confirms it.
usage: mkbug.py FILE.py ...   each defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]"""
import json,os,subprocess,sys,shutil
R='/repo'
DEMO='''#!/bin/sh
# exit 0: the property holds; otherwise it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
printf '{"Replace": {"%s/{DIR}zz_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$D" > "$T/o.json"
timeout 250 go test {RACE}-vet=off -count=1 -overlay "$T/o.json" -run 'TestDemo' ./{DIR}
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def clean(): sh('git -C /repo checkout -- .')
assert sh('git -C /repo status --porcelain').stdout=='' , 'repo dirty'
for f in sys.argv[1:]:
    ns={}; exec(open(f).read(),ns)
    for b in ns['BUGS']:
        d='/verif/seeded/'+b['id']
        os.makedirs(d,exist_ok=True)
        open(d+'/demo_test.go','w').write(b['demo'].lstrip())
        dirn=b.get('dir','')
        open(d+'/demo.sh','w').write(DEMO.replace('{DIR}',dirn).replace('{RACE}','-race ' if b.get('race') else ''))
        os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
        r=sh('sh %s/demo.sh'%d,cwd=R)
        ok0=r.returncode==0
        if not ok0: print(b['id'],'DEMO FAILS ON CLEAN TREE\n',(r.stdout+r.stderr)[-1500:])
        good=True
        for (fn,old,new) in b['edits']:
            p=R+'/'+fn; s=open(p).read()
            if s.count(old)!=1:
                print(b['id'],'edit matches',s.count(old),'times:',old[:60]); good=False; break
            open(p,'w').write(s.replace(old,new))
        if good:
            open(d+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
            v=sh('gofmt -l . ; go build ./... && go vet . ./cmd/... >/dev/null 2>&1; go build ./...',cwd=R)
            t=sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/bugs/o.json',cwd=R)
            base=json.load(open('/opt/vp/BASELINE.json'))
            try:
                o=json.load(open('/tmp/bugs/o.json'))
            except Exception as e: o=None
            failed=set(o.get('failed',[])) if o else {'?'}
            fails=[x for x in (o or {}).get('failed',[])]
            r=sh('sh %s/demo.sh'%d,cwd=R)
            print(b['id'],'build',v.returncode,'','tests',t.returncode,'failed',len(fails),fails[:3],'demo clean',ok0,'demo bug exit',r.returncode)
            if r.returncode==0: print((r.stdout+r.stderr)[-600:])
        clean()
