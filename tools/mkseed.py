#!/usr/bin/env python3
"""mkseed.py FILE.seed: makes seeded/<id>/ from a description and confirms it in a scratch copy.
Description (python dict): id, property, edits=[(file,old,new)], pkg, demo (Go test source, TestDemo), needs, breaks"""
import sys,os,json,subprocess,shutil,tempfile
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env=dict(os.environ)
def sh(c,cwd,t=300):
    try: p=subprocess.run(['bash','-c','. /opt/vp/env.sh; '+c],cwd=cwd,capture_output=True,text=True,timeout=t)
    except subprocess.TimeoutExpired: return 99,'timeout'
    return p.returncode,p.stdout+p.stderr
DEMO='''#!/bin/bash
# runs demo_test.go inside %(pkg)s through an overlay
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
d="$(mktemp -d /tmp/braid-demo.XXXXXX)" || exit 3
trap 'rm -rf -- "$d"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_verif_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$d/o.json"
%(pre)sgo test -overlay "$d/o.json" -vet=off %(flags)s-count=1 -timeout 120s -run '^TestDemo$' ./%(pkg)s
'''
for f in sys.argv[1:]:
    for s in eval(open(f).read()):
        d=os.path.join(root,'seeded',s['id'])
        if os.path.exists(d) and '-f' not in os.environ.get('MKSEED',''): continue
        W='/tmp/sd/w'
        shutil.rmtree(W,ignore_errors=True); sh('cp -a /repo '+W,'/')
        ok=True
        for (p,o,n,*ix) in s['edits']:
            t=open(W+'/'+p).read()
            if t.count(o)!=1 and not ix: print(s['id'],'EDIT COUNT',p,t.count(o)); ok=False; break
            if ix:
                q=t.split(o); t=o.join(q[:ix[0]+1])+n+o.join(q[ix[0]+1:])
            else: t=t.replace(o,n)
            open(W+'/'+p,'w').write(t)
        if not ok: continue
        os.makedirs(d,exist_ok=True)
        rc,diff=sh('gofmt -l $(git diff --name-only); git diff',W)
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo_test.go','w').write(s['demo'])
        race=s.get('race')
        open(d+'/demo.sh','w').write(DEMO%{'pkg':s['pkg'],'flags':'-race ' if race else '','pre':'export CGO_ENABLED=1\n' if race else ''})
        os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
        r0,o0=sh('bash %s/demo.sh'%d,'/repo'); 
        rb,ob=sh('go build ./... ',W); r1,o1=sh('bash %s/demo.sh'%d,W)
        rt,ot=sh("go vet ./router/msg ./core/... >/dev/null; go test -count=1 ./lib/grpc ./lib/token ./router/msg 2>&1; go test -count=1 -run 'TestNewTopic|TestTopic' ./lib/pubsub 2>&1; go test -count=1 -skip '^TestReenter$/^Timeout_chain$' -run '^(TestCall|TestCallBlock|TestDynamicPicker|TestPubsub|TestReenter|TestSend|TestTCCSucc)$' ./tests 2>&1",W,400)
        print(s['id'],'build',rb,'demo base',r0,'demo bug',r1,'tests','FAIL' if 'FAIL' in ot else 'ok')
        if r0 or 'build failed' in o1: print(o0[-1500:],o1[-1500:])
        elif r1: print('   ',[l for l in o1.split('\n') if 'demo' in l or 'panic' in l or 'RACE' in l][:2])
        if 'FAIL' in ot: print(ot[-1500:])
        if rb or r0 or not r1 or 'FAIL' in ot: shutil.rmtree(d)
        shutil.rmtree(W,ignore_errors=True)
