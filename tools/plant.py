#!/usr/bin/env python3
"""plant.py ID...  : builds /verif/seeded/ID from /tmp/spec/ID/{edit.py,demo_test.go,meta.py}"""
import sys,os,json,subprocess,shutil,re,concurrent.futures as cf
BASE='28f81fb'
env=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',CGO_ENABLED='1',GOPATH='/root/go',GOMODCACHE='/root/go/pkg/mod',GOCACHE='/root/.cache/go-build')
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def sh(cmd,cwd,timeout=900,**kw):
    return subprocess.run(cmd,cwd=cwd,env=dict(env,**kw),capture_output=True,text=True,timeout=timeout,shell=isinstance(cmd,str))
def one(id):
    sp='/tmp/spec/'+id
    ns={}
    exec(open(sp+'/spec.py').read(),ns)
    wt='/tmp/wt/'+id
    shutil.rmtree(wt,ignore_errors=True)
    sh(['git','clone','-q','/repo',wt],'/tmp')
    msgs=[]
    for f,old,new in ns['EDITS']:
        p=wt+'/'+f; s=open(p).read()
        if s.count(old)!=1: return id,'EDIT %s matches %d'%(f,s.count(old))
        open(p,'w').write(s.replace(old,new))
    sh('gofmt -w $(git diff --name-only)',wt)
    d=sh(['git','diff'],wt).stdout
    # ownership of removed lines
    mine=orig=0
    for f in sh(['git','diff','--name-only'],wt).stdout.split():
        bl=sh(['git','blame','-l','HEAD','--',f],'/repo').stdout.split('\n')
        base=sh(['git','rev-list','--max-parents=0','HEAD'],'/repo').stdout.strip()
        for h in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ',sh(['git','diff','-U0','--',f],wt).stdout,re.M):
            a=int(h[1]); n=int(h[2]) if h[2] is not None else 1
            for i in range(a,a+n):
                if bl[i-1].lstrip('^').startswith(base[:30]): orig+=1
                else: mine+=1
    if not orig: msgs.append('NO ORIGINAL LINE')
    if mine: msgs.append('%d of my lines'%mine)
    out='/verif/seeded/'+id
    shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
    open(out+'/patch.diff','w').write(d)
    json.dump({"property":ns['PROP'],"needs":ns['NEEDS'],"what_it_breaks":ns['BREAKS']},open(out+'/meta.json','w'),indent=1)
    shutil.copy(sp+'/demo_test.go',out+'/demo_test.go')
    for f in ns.get('EXTRA',[]): # FILE or FILE:package
        f,_,pkg=f.partition(':')
        src=open(f).read()
        if pkg: src=re.sub(r'^package \w+',('package '+pkg),src,count=1,flags=re.M)
        open(out+'/x_'+os.path.basename(f).replace('_test.go','.go'),'w').write(src)
    extra=''.join(',"%%s/%%s/zz_%s_test.go":"%%s/%s"'%(f[:-3],f) for f in sorted(os.listdir(out)) if f.startswith('x_'))
    race='-race ' if ns.get('RACE') else ''
    open(out+'/demo.sh','w').write('''#!/bin/bash
# the test beside this file runs in the package it is about
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1
printf '{"Replace":{"%%s/%%s/zz_demo_test.go":"%%s/demo_test.go"%s}}' %s > "$T/overlay.json"
mkdir "$T/tmp"
TMPDIR="$T/tmp" timeout 250 go test %s-count=1 -vet=off -overlay "$T/overlay.json" -run '^TestDemo$' ./%s
''' % (extra,' '.join(['"$PWD" "%s" "$D"'%ns['PKG']]*(1+extra.count('zz_'))),race,ns['PKG']))
    os.chmod(out+'/demo.sh',0o755)
    r=sh(['go','build','./...'],wt)
    if r.returncode: return id,'BUILD '+r.stderr[:1500]
    r=sh(['go','test','-json','-vet=off','-count=1','-timeout','10m','./...'],wt)
    passed=set()
    for l in r.stdout.split('\n'):
        try: j=json.loads(l)
        except Exception: continue
        if j.get('Action')=='pass' and j.get('Test'): passed.add(j['Package']+'/'+j['Test'])
    lost=stable-passed
    if lost: msgs.append('STABLE FAIL %s'%sorted(lost)[:4])
    r=sh(['bash',out+'/demo.sh'],wt); 
    if r.returncode==0: msgs.append('DEMO PASSES WITH BUG')
    elif 'build failed' in r.stdout: msgs.append('DEMO BUILD '+r.stdout[:1500]+r.stderr[:1500])
    else: msgs.append('demo: '+' '.join(re.findall(r'(?:demo_test.go:.*|panic:.*|DATA RACE)',r.stdout)[:2])[:300])
    r=sh(['bash',out+'/demo.sh'],'/repo')
    if r.returncode: msgs.append('DEMO FAILS CLEAN '+r.stdout[:1500]+r.stderr[:500])
    for p in [ns['PROP']]+ns.get('ALSO',[]):
        r=sh(['python3','/verif/run.py',p],'/verif',VERIF_REPO=wt,VERIF_SEED='1',VERIF_TIER='quick')
        ok=r.returncode==1 and 'VIOLATION property='+p in r.stdout
        msgs.append('%s %s'%(p,'CAUGHT' if ok else 'MISSED rc=%d %s'%(r.returncode,r.stdout[-600:] if r.returncode!=0 else '')))
        if ok:
            m=re.search(r'\[rapid\] failed after (\d+) tests?: (.*)',r.stdout)
            if m: msgs.append('after %s: %s'%(m[1],m[2][:250]))
    shutil.rmtree(wt,ignore_errors=True)
    return id,'\n    '.join(msgs)
with cf.ThreadPoolExecutor(3) as ex:
    for id,m in ex.map(one,sys.argv[1:]): print('==',id,m,flush=True)
