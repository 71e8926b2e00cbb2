import os,subprocess,json,shutil,sys,tempfile
ENV=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',CGO_ENABLED='1',
 PATH='/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
R='/tmp/seed/repo'
BASE=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO='''#!/bin/bash
# Runs demo.go (a main package) against the repository in the current directory.
d=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
t=$(mktemp -d) || exit 2
trap 'rm -r -f -- "$t"' EXIT
printf '{"Replace":{"%s/internal/zzdemo/main.go":"%s/demo.go"}}' "$PWD" "$d" >"$t/overlay.json"
go build @RACE@-overlay "$t/overlay.json" -o "$t/demo" ./internal/zzdemo || exit 2
cd "$t" && timeout 120 ./demo
'''
def run(cmd,cwd,**k): return subprocess.run(cmd,cwd=cwd,env=ENV,capture_output=True,text=True,**k)
def fresh():
    if not os.path.isdir(R):
        shutil.copytree('/repo',R,symlinks=True)
    h=run(['git','rev-parse','HEAD'],'/repo').stdout.strip()
    if run(['git','rev-parse','HEAD'],R).stdout.strip()!=h:
        shutil.rmtree(R); shutil.copytree('/repo',R,symlinks=True)
    run(['git','checkout','-q','--','.'],R)
    run(['git','clean','-fdq'],R)
def tests():
    p=run(['go','test','-json','-vet=off','-count=1','-timeout=100s','./...'],R)
    ok=set();bad=set()
    for l in p.stdout.splitlines():
        try: e=json.loads(l)
        except: continue
        if e.get('Test') and e['Action'] in('pass','fail'):
            (ok if e['Action']=='pass' else bad).add(e['Package']+'/'+e['Test'])
    return ok,bad,p.stderr[-500:]
def seed(id,prop,needs,breaks,edits,demo,race=False,sh=None):
    only=sys.argv[1:]
    if only and id not in only: return
    fresh()
    d='/verif/seeded/'+id
    for f,a,b in edits:
        p=os.path.join(R,f); s=open(p).read()
        if s.count(a)!=1: print(id,'EDIT FAIL',f,s.count(a),repr(a[:60])); return
        open(p,'w').write(s.replace(a,b))
    diff=run(['git','diff'],R).stdout
    # removed/changed lines must be original ones
    b=run(['go','build','./...'],R)
    if b.returncode: print(id,'BUILD FAIL',b.stderr[:800]); return
    ok,bad,err=tests()
    miss=[t for t in BASE if t not in ok]
    if miss: print(id,'TESTS FAIL',miss[:5],err); return
    t=tempfile.mkdtemp(prefix='sd')
    if demo: open(t+'/demo.go','w').write(demo)
    open(t+'/demo.sh','w').write((sh or DEMO).replace('@RACE@','-race ' if race else '')); os.chmod(t+'/demo.sh',0o755)
    if demo and subprocess.run(['gofmt','-l',t+'/demo.go'],capture_output=True,text=True,env=ENV).stderr: print(id,'demo syntax')
    p1=run(['bash',t+'/demo.sh'],R)
    p0=run(['bash',t+'/demo.sh'],'/repo')
    if p0.returncode!=0 or p1.returncode==0 or p1.returncode==2 and 'goroutine' not in p1.stderr:
        print(id,'DEMO FAIL clean=%d bug=%d'%(p0.returncode,p1.returncode),p0.stdout[-300:],p0.stderr[-600:],'|',p1.stdout[-300:],p1.stderr[-300:]); return
    if run(['git','status','--porcelain'],'/repo').stdout: print(id,'REPO DIRTY')
    # blame check
    base=set()
    warn=''
    if os.path.isdir(d): shutil.rmtree(d)
    shutil.copytree(t,d); shutil.rmtree(t)
    open(d+'/patch.diff','w').write(diff)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    # original lines
    mine=0;orig=0
    for f in {e[0] for e in edits}:
        bl=run(['git','blame','-s','--abbrev=7','HEAD','--',f],R).stdout.splitlines()
        dd=run(['git','diff','-U0','--',f],R).stdout
        for l in dd.splitlines():
            if l.startswith('@@'):
                o=l.split()[1][1:].split(','); st=int(o[0]); n=int(o[1]) if len(o)>1 else 1
                for i in range(st,st+n):
                    if 'c99af45' in bl[i-1][:9] or bl[i-1].startswith('^'): orig+=1
                    else: mine+=1
    print(id,'ok  demo rc',p1.returncode,'orig',orig,'mine',mine,p1.stdout[-150:].strip().replace('\n',' / '))
