#!/usr/bin/env python3
"""seed.py SPEC.py ... : builds /verif/seeded/<id>/ from specs and confirms them
in a scratch copy of /repo. A spec is a python file with a list SEEDS of
dict(id, prop, edits=[(file, old, new)], pkg, demo, needs, breaks)."""
import sys, os, json, subprocess, shutil, tempfile, runpy
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'], GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off')
DEMO = '''#!/bin/bash
# exit 0: the property holds in the demonstrated case; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_seed_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
timeout 250 go test -overlay "$tmp/overlay.json" -count=1 -vet=off -timeout 240s -run '^TestSeedDemo$' ./%(pkg)s
'''
COPY = '''#!/bin/bash
# exit 0: the property holds in the demonstrated case; run with cwd = the repository
# (in a copy of it, as the test reads its own source)
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp -a "$PWD/." "$tmp" && cp "$here/demo_test.go" "$tmp/%(pkg)s/zz_seed_demo_test.go" && cd "$tmp" || exit 2
timeout 250 go test -count=1 -vet=off -timeout 240s -run '^TestSeedDemo$' ./%(pkg)s
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)
def main():
    only = [a for a in sys.argv[1:] if not a.endswith('.py')]
    for spec in [a for a in sys.argv[1:] if a.endswith('.py')]:
        for s in runpy.run_path(spec)['SEEDS']:
            if only and s['id'] not in only: continue
            d = '/verif/seeded/'+s['id']
            wt = tempfile.mkdtemp(prefix='seed.')
            try:
                sh(['cp','-a','/repo/.',wt],'/')
                sh(['git','checkout','-q','--','.'],wt)
                for f,old,new in s['edits']:
                    p=os.path.join(wt,f); t=open(p).read()
                    assert t.count(old)==1,(s['id'],f,t.count(old),old)
                    open(p,'w').write(t.replace(old,new))
                diff=sh(['git','diff'],wt).stdout
                os.makedirs(d,exist_ok=True)
                open(d+'/patch.diff','w').write(diff)
                open(d+'/demo_test.go','w').write(s['demo'])
                open(d+'/demo.sh','w').write((COPY if s.get('copy') else DEMO)%dict(pkg=s['pkg']))
                os.chmod(d+'/demo.sh',0o755)
                json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
                b=sh(['go','build','./...'],wt)
                msg=[]
                if b.returncode: msg.append('BUILD '+b.stderr[-400:])
                f=sh(['gofmt','-l','.'],wt).stdout
                t=sh(['bash','-c','export TZ=Asia/Tokyo; go test -vet=off -count=1 -short ./utils/caches && go test -vet=off -count=1 $(go list ./... | grep -v utils/caches)'],wt)
                if t.returncode: msg.append('TESTS '+t.stdout[-1500:])
                p=sh(['bash',d+'/demo.sh'],wt)
                if p.returncode==0: msg.append('DEMO passes with the patch '+p.stdout[-300:])
                elif 'FAIL' not in p.stdout and 'panic' not in p.stdout: msg.append('DEMO broken '+p.stdout[-500:]+p.stderr[-500:])
                sh(['git','checkout','-q','--','.'],wt)
                u=sh(['bash',d+'/demo.sh'],wt)
                if u.returncode: msg.append('DEMO fails unpatched '+u.stdout[-1500:]+u.stderr[-500:])
                st=sh(['git','status','--short'],wt).stdout
                if st: msg.append('DIRTY '+st)
                print(s['id'],'ok' if not msg else 'BAD '+' | '.join(msg),flush=True)
                if msg: shutil.move(d,'/tmp/bad-'+s['id']+str(os.getpid()))
            finally:
                shutil.rmtree(wt)
main()
