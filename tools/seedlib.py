"""Makes and verifies seeded bugs (see ../seeded). Not used by any check."""
import json, os, subprocess, sys, shutil, tempfile
V='/verif'
ENV=dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod',
    PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'], GOCACHE='/root/.cache/go-build', GOMODCACHE='/root/go/pkg/mod')
DEMO='''#!/bin/bash
# Run with cwd = the repository: exit 0 if the behaviour is right.
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf -- "$T"' EXIT
printf '{"Replace": {"%s/zz_demo_test.go": "%s/demo_test.go.txt"}}' "$PWD" "$D" > "$T/overlay.json"
TMPDIR=$T go test -vet=off -count=1 EXTRA-timeout 120s -overlay "$T/overlay.json" .
'''
def sh(cmd, cwd, timeout=900):
    p=subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')
def stable():
    return set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def passed(cwd):
    rc,out=sh("go test -json -vet=off -count=1 -timeout 10m ./...", cwd)
    ok=set()
    for l in out.splitlines():
        try: e=json.loads(l)
        except Exception: continue
        if e.get('Action')=='pass' and e.get('Test'):
            ok.add((e['Package'],e['Test']))
    return ok
def make(id, prop, needs, breaks, edits, imports, demo, race=False):
    w=tempfile.mkdtemp(prefix='seed.',dir='/tmp')
    try:
        sh('cp -a /repo %s/repo'%w,'/'); r=w+'/repo'
        base=passed(r)
        d='%s/seeded/%s'%(V,id)
        os.makedirs(d,exist_ok=True)
        open(d+'/demo.sh','w').write(DEMO.replace('EXTRA','-race ' if race else '')); os.chmod(d+'/demo.sh',0o755)
        mod='github.com/nlpodyssey/gotokenizers/'
        imp=''.join('\t"%s"\n'%(i if not i.startswith('@') else mod+i[1:]) for i in imports)
        open(d+'/demo_test.go.txt','w').write('package gotokenizers_test\n\nimport (\n\t"testing"\n%s)\n\n%s'%(imp,demo.lstrip()))
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
        rc,out=sh(d+'/demo.sh',r)
        if rc!=0: print(id,'DEMO FAILS ON CLEAN',out[-1500:]); return False
        for f,old,new in edits:
            s=open(r+'/'+f).read()
            if s.count(old)!=1: print(id,'edit matches',s.count(old),f,old); return False
            open(r+'/'+f,'w').write(s.replace(old,new))
        sh('gofmt -l . ',r)
        rc,out=sh('git diff',r)
        open(d+'/patch.diff','w').write(out)
        rc,out=sh('go build ./... && go vet ./normalizedstring >/dev/null 2>&1; go build ./...',r)
        if rc!=0: print(id,'BUILD',out); return False
        miss=base-passed(r)
        if miss: print(id,'TESTS FAIL',sorted(miss)[:5]); return False
        rc,out=sh(d+'/demo.sh',r)
        if rc==0: print(id,'DEMO PASSES WITH PATCH'); return False
        print(id,'ok'); return True
    finally:
        shutil.rmtree(w)
def check(id, prop=None, extra=''):
    w=tempfile.mkdtemp(prefix='seed.',dir='/tmp')
    try:
        sh('cp -a /repo %s/repo'%w,'/'); r=w+'/repo'
        d='%s/seeded/%s'%(V,id)
        prop=prop or json.load(open(d+'/meta.json'))['property']
        rc,out=sh('git apply %s/patch.diff'%d,r)
        if rc!=0: return id,prop,'APPLY '+out
        rc,out=sh('%s/run.sh -repo %s -prop %s %s'%(V,r,prop,extra),V)
        v=[l for l in out.splitlines() if l.startswith('VIOLATION')]
        t=out.splitlines()
        return id,prop,'rc=%d %s | %s'%(rc, 'CAUGHT' if rc==1 and v else 'MISSED', (v or ['']) [0][:150]+' '+ '; '.join(x for x in t if 'INCOMPLETE' in x or 'MISMATCH' in x or 'UNCONF' in x or 'wall' in x)[:300])
    finally:
        shutil.rmtree(w)
if __name__=='__main__':
    ids=sys.argv[1:] or sorted(os.listdir(V+'/seeded'))
    for i in ids:
        p=None
        if ':' in i: i,p=i.split(':')
        print(*check(i,p),flush=True)
