#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines id, property, needs, breaks, edits=[(file,old,new)], pkg (dir), demo (Go test source with TestZZDemo), or script.
Builds /verif/seeded/<id> and confirms: builds, tests pass, demo fails with and passes without."""
import sys, os, subprocess, json, shutil
spec={}
exec(open(sys.argv[1]).read(), spec)
d='/verif/seeded/'+spec['id']
wt='/tmp/seedwt'
subprocess.run(['rm','-rf',wt]); subprocess.run(['cp','-a','/repo',wt],check=True)
for f,o,n in spec['edits']:
    p=os.path.join(wt,f); s=open(p).read()
    assert s.count(o)>=1,(f,o)
    i=spec.get('nth',{}).get(o,0)
    parts=s.split(o); s=o.join(parts[:i+1])+n+o.join(parts[i+1:])
    open(p,'w').write(s)
diff=subprocess.run(['git','diff'],cwd=wt,capture_output=True,text=True).stdout
os.makedirs(d,exist_ok=True)
open(d+'/patch.diff','w').write(diff)
json.dump({"property":spec['property'],"needs":spec['needs'],"what_it_breaks":spec['breaks']},open(d+'/meta.json','w'),indent=1)
HEAD='''#!/bin/bash
# exit 0 when the demonstrated behaviour is right, non-zero otherwise
d=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
'''
if 'script' in spec:
    body=spec['script']
else:
    open(d+'/demo_test.go.txt','w').write(spec['demo'])
    body='''pkg=%s
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/$pkg/zz_demo_test.go" "$d/demo_test.go.txt" >"$t/overlay.json"
cd "$pkg" && timeout 120 go test %s -vet=off -count=1 -timeout 60s -overlay "$t/overlay.json" -run '^TestZZDemo$' .
'''%(spec['pkg'],spec.get('flags',''))
for k,v in spec.get('files',{}).items():
    open(d+'/'+k,'w').write(v)
open(d+'/demo.sh','w').write(HEAD+body); os.chmod(d+'/demo.sh',0o755)
def demo(cwd): 
    return subprocess.run(['bash',d+'/demo.sh'],cwd=cwd,capture_output=True,text=True)
a=demo('/repo'); b=demo(wt)
print('clean demo rc',a.returncode,'patched rc',b.returncode)
if a.returncode: print(a.stdout[-1500:],a.stderr[-1500:])
if not b.returncode: print(b.stdout[-1500:],b.stderr[-1500:])
else: print('\n'.join((b.stdout+b.stderr).splitlines()[:6]))
ok=a.returncode==0 and b.returncode!=0
for m in ['.','engines/yayamls','engines/goyaml','test']:
    r=subprocess.run('. /opt/vp/env.sh; go build ./... && go test -vet=off -timeout 100s -count=1 ./... 2>&1 | grep -E "^(FAIL|---|panic)"',shell=True,cwd=wt+'/'+m,capture_output=True,text=True,executable='/bin/bash')
    if r.stdout.strip() or r.stderr.strip(): print('TESTS',m,r.stdout[:600],r.stderr[:600]); ok=False
chk='/tmp/chk'
for p in spec['property'].split()+spec.get('also',[]):
    r=subprocess.run([chk,'-repo',wt,'-verif','/tmp/mv',p],capture_output=True,text=True)
    print(p,'rc',r.returncode,'|',r.stdout[:400].replace('\n',' / '))
print('KEEP' if ok else 'REJECT')
if not ok: shutil.rmtree(d)
subprocess.run(['rm','-rf',wt])
