#!/usr/bin/env python3
# plant.py FILE...: each FILE is a python snippet defining id, prop, needs, breaks, edits=[(file,old,new)], demo (C++), std, flags.
# Confirms (in a scratch copy of /repo) that the change builds, passes the stable tests and that the demo tells the two apart; keeps it in seeded/<id>.
import sys,os,json,subprocess,shutil,tempfile,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W='/tmp/plantwork'
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def demo(d): return sh(f'bash {d}/demo.sh',cwd=W+'/repo',timeout=300)
DEMO='''#!/bin/bash
# exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf -- "$d"' EXIT
g++ -std=c++%s -g -pthread -Iinclude %s "$here/demo.cpp" -o "$d/demo" -ltbb || exit 2
cd "$d" && timeout 120 ./demo
'''
if not os.path.exists(W+'/repo'):
    os.makedirs(W,exist_ok=True); sh(f'cp -a /repo {W}/repo'); shutil.rmtree(W+'/repo/_build',ignore_errors=True)
sh(f'git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD',cwd=W+'/repo')
# build in the copy: same commands as build.sh/test.sh with the paths replaced
def script(n):
    s=open('/opt/vp/'+n).read().replace('/repo',W+'/repo'); p=W+'/'+n; open(p,'w').write(s); return p
B,T=script('build.sh'),script('test.sh')
stable=json.load(open('/opt/vp/BASELINE.json'))
for f in sys.argv[1:]:
    g={}; exec(open(f).read(),g)
    sh('git checkout -q -f .',cwd=W+'/repo')
    d=V+'/seeded/'+g['id']; os.makedirs(d,exist_ok=True)
    open(d+'/demo.cpp','w').write(g['demo'])
    open(d+'/demo.sh','w').write(DEMO%(g.get('std','20'),g.get('flags','')))
    json.dump({'property':g['prop'],'needs':g['needs'],'what_it_breaks':g['breaks']},open(d+'/meta.json','w'),indent=1)
    def bad(m): print(g['id'],'REJECTED',m[-1500:]); shutil.rmtree(d)
    r=demo(d)
    if r.returncode: bad('demo fails on clean: '+r.stdout); continue
    ok=True
    for fn,o,n in g['edits']:
        p=W+'/repo/'+fn; s=open(p).read()
        k=s.count(o)
        if k!=1: bad(f'{k} matches of {o!r}'); ok=False; break
        open(p,'w').write(s.replace(o,n))
    if not ok: continue
    open(d+'/patch.diff','w').write(sh('git diff',cwd=W+'/repo').stdout)
    r=sh('bash '+B)
    if r.returncode: bad('build: '+r.stdout); continue
    out=W+'/out.json'
    r=sh(f'bash {T} {out}')
    o=json.load(open(out)); 
    passed=set(o.get('passed',o.get('pass',[])))
    want=set(stable['stable'])
    miss=want-passed
    if miss or not want: bad('tests fail: '+str(sorted(miss)[:5])+' '+str(list(stable)[:5])+' '+str(list(o)[:5])); continue
    r=demo(d)
    if r.returncode in (0,2): bad('demo passes/does not build with the patch: '+r.stdout); continue
    print(g['id'],'KEPT demo:',r.returncode,r.stdout.strip()[:200])
sh('git checkout -q -f .',cwd=W+'/repo')
