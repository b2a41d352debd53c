#!/usr/bin/env python3
"""Mass mutation: mutate.py LIST.py [-j N] [id...]

LIST.py defines M = [(id, property, file, old, new), ...]; file/old/new may be lists of
edits [(file, old, new), ...] in place of the three. For each mutant a scratch copy of /repo
is made, the edit applied, the repo built and its tests run, and the property's check run
against the copy. Prints one line per mutant: KILLED / SURVIVED / BADTEST / BADBUILD.
"""
import sys, os, subprocess, json, shutil, importlib.util, concurrent.futures as cf, time
args=sys.argv[1:]
lst=args.pop(0); j=4
if '-j' in args:
    i=args.index('-j'); j=int(args[i+1]); del args[i:i+2]
spec=importlib.util.spec_from_file_location('m',lst); mod=importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
env=dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:"+os.environ['PATH'], GOROOT="/opt/veriftools/go1.23.12",
  GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
stable=None
b=json.load(open('/opt/vp/BASELINE.json'))
def run(m):
    t=time.time()
    mid,prop=m[0],m[1]
    edits=m[2] if isinstance(m[2],list) else [(m[2],m[3],m[4])]
    d='/tmp/mut/'+mid
    shutil.rmtree(d,ignore_errors=True); os.makedirs('/tmp/mut',exist_ok=True)
    subprocess.check_call(['cp','-a','/repo',d])
    try:
        for f,o,n in edits:
            p=d+'/'+f; s=open(p).read()
            if s.count(o)<1:
                # Try again with comment lines between the lines skipped.
                import re
                rx='\n(?:[ \t]*//[^\n]*\n)*'.join(re.escape(l) for l in o.split('\n'))
                ms_=re.findall(rx,s)
                if len(ms_)!=1: return (mid,prop,'NOMATCH',repr(o)[:80])
                o=ms_[0]
            if s.count(o)>1: return (mid,prop,'AMBIG','')
            open(p,'w').write(s.replace(o,n))
        r=subprocess.run(['go','build','./...'],cwd=d,env=env,capture_output=True,text=True)
        if r.returncode: return (mid,prop,'BADBUILD',r.stderr[-300:])
        r=subprocess.run(['go','test','-vet=off','-count=1','-timeout','5m','-tags=nolog','-ldflags=-checklinkname=0','./...'],cwd=d,env=env,capture_output=True,text=True)
        bad=[l for l in r.stdout.splitlines() if l.startswith('--- FAIL') or 'panic:' in l]
        if r.returncode: return (mid,prop,'BADTEST',' '.join(bad)[:200])
        out=[]
        for pr in prop.split(','):
            r=subprocess.run(['timeout','900','/verif/check.sh',pr,'-tier','quick','-repo',d,'-workers','4'],cwd='/verif',env=env,capture_output=True,text=True)
            v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            out.append((pr,r.returncode,(v+[''])[0],(r.stdout+r.stderr)[-200:] if r.returncode not in(0,1) else ''))
        killed=any(o[1]==1 and o[2] for o in out)
        return (mid,prop,'KILLED' if killed else 'SURVIVED', ' '.join(f'{o[0]}={o[1]} {o[3]}' for o in out)+' %.0fs'%(time.time()-t))
    except Exception as e:
        return (mid,prop,'EXC',str(e))
    finally:
        shutil.rmtree(d,ignore_errors=True)
ms=[m for m in mod.M if not args or m[0] in args or m[1] in args]
with cf.ThreadPoolExecutor(j) as ex:
    for r in ex.map(run,ms): print(*r,flush=True)
