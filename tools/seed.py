#!/usr/bin/env python3
"""Build planted bugs: seed.py SPEC.py [-j N] [--nocheck] [id...]

For each seed: scratch copies of /repo (clean and changed), the edit, a blame test (removed
lines belong to the original repository), build, the stable tests, the demonstration on both
copies, then /verif/seeded/<id>/ is written and the property's check is run on the changed copy.
"""
import sys, os, subprocess, json, shutil, importlib.util, concurrent.futures as cf, time, re
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__))+'/seeds')
args=sys.argv[1:]; spec=args.pop(0); j=2; nocheck=False
if '-j' in args: i=args.index('-j'); j=int(args[i+1]); del args[i:i+2]
if '--nocheck' in args: args.remove('--nocheck'); nocheck=True
sp=importlib.util.spec_from_file_location('m',spec); mod=importlib.util.module_from_spec(sp); sp.loader.exec_module(mod)
BASE='d610973'
DEMO=open('/verif/tools/seeds/demo.sh').read()
stable=set()
b=json.load(open('/opt/vp/BASELINE.json'))
def sh(cmd,cwd,timeout=900,env=None):
    try: r=subprocess.run(cmd,cwd=cwd,shell=True,capture_output=True,text=True,timeout=timeout,env=env,executable='/bin/bash')
    except subprocess.TimeoutExpired: return 124,'timeout'
    return r.returncode,r.stdout+r.stderr
def lines_removed(d):
    _,o=sh('git diff -U0',d)
    f=None; out=[]
    for l in o.splitlines():
        if l.startswith('--- a/'): f=l[6:]
        m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
        if m:
            n=int(m.group(2) or 1)
            out+= [(f,int(m.group(1))+k) for k in range(n)]
    return out,o
def run(s):
    t=time.time(); sid=s['id']; prop=s['property']
    d='/tmp/seed/'+sid; c='/tmp/seed/'+sid+'.clean'
    for x in (d,c):
        shutil.rmtree(x,ignore_errors=True); os.makedirs('/tmp/seed',exist_ok=True)
        subprocess.check_call(['cp','-a','/repo',x])
    try:
        for f,o,n in s['edits']:
            p=d+'/'+f; x=open(p).read()
            if x.count(o)!=1: return (sid,prop,'NOMATCH' if not x.count(o) else 'AMBIG',repr(o)[:100])
            open(p,'w').write(x.replace(o,n))
        sh('/opt/veriftools/go1.23.12/bin/gofmt -l '+' '.join({e[0] for e in s['edits']}),d)
        rem,diff=lines_removed(d)
        if not rem: return (sid,prop,'NOREMOVED','')
        own=0
        for f,l in rem:
            _,bl=sh(f'git blame -s -L {l},{l} {f}',c)
            if bl.startswith('^'+BASE[:6]) or bl.startswith(BASE[:7]): own+=1
        if not own: return (sid,prop,'NOTBASE',diff[-300:])
        rc,o=sh('. /opt/vp/env.sh; go build ./... && go test -vet=off -count=1 -timeout 5m -tags=nolog -ldflags=-checklinkname=0 ./...',d)
        if rc: return (sid,prop,'BADTEST',' '.join([l for l in o.splitlines() if '--- FAIL' in l or 'panic' in l or '.go:' in l])[:300])
        out='/verif/seeded/'+sid
        tmp='/tmp/seed/'+sid+'.out'; shutil.rmtree(tmp,ignore_errors=True); os.makedirs(tmp)
        open(tmp+'/patch.diff','w').write(diff_full(d))
        open(tmp+'/demo.sh','w').write(DEMO.replace('@PKG@',s['pkg'])); os.chmod(tmp+'/demo.sh',0o755)
        open(tmp+'/demo_test.go','w').write(s['demo'])
        json.dump({'property':prop,'needs':s['needs'],'what_it_breaks':s['breaks']},open(tmp+'/meta.json','w'),indent=1)
        rc,o=sh(tmp+'/demo.sh',c,300)
        if rc: return (sid,prop,'DEMO-FAILS-CLEAN',o[-600:])
        rc,o=sh(tmp+'/demo.sh',d,300)
        if rc==0: return (sid,prop,'DEMO-PASSES-PATCHED','')
        why=[l for l in o.splitlines() if 'demo_test' in l or 'panic:' in l or 'error' in l][:2]
        if 'build failed' in o: return (sid,prop,'DEMO-BUILD',o[-400:])
        shutil.rmtree(out,ignore_errors=True); shutil.move(tmp,out)
        rs=[]
        if not nocheck:
            for pr in [prop]+s.get('also',[]):
                rc,o=sh(f'timeout 900 /verif/check.sh {pr} -tier quick -repo {d} -workers 4','/verif',1000)
                v='VIOLATION property='+pr in o
                rs.append(f'{pr}:'+('CAUGHT' if rc==1 and v else 'MISSED rc=%d %s'%(rc,o[-300:] if rc not in (0,1) else '')))
        return (sid,prop,' '.join(rs),'%.0fs'%(time.time()-t),' | '.join(why)[:160])
    finally:
        for x in (d,c): shutil.rmtree(x,ignore_errors=True)
def diff_full(d): return sh('git diff',d)[1]
ss=[s for s in mod.S if not args or s['id'] in args or s['property'] in args]
with cf.ThreadPoolExecutor(j) as ex:
    for r in ex.map(run,ss): print(*r,flush=True)
