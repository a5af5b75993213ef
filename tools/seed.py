#!/usr/bin/env python3
"""Creates /verif/seeded/<id>: seed.py <id> <spec.py>; the spec defines prop, needs, breaks, pkg, edits [(file, old, new)], demo (Go test source).
Works on a scratch copy, checks: builds, stable tests pass, demo passes without and fails with the change."""
import sys,os,subprocess,shutil,json,tempfile
sid,spec=sys.argv[1],sys.argv[2]
ns={}
exec(open(spec).read(),ns)
env=dict(os.environ)
w=tempfile.mkdtemp(prefix='seed')
repo=w+'/repo'
subprocess.check_call(['git','clone','-q','/repo',repo])
d='/verif/seeded/'+sid
shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
demo=ns['demo']
open(d+'/demo_test.go','w').write(demo)
race=' -race' if ns.get('race') else ''
open(d+'/demo.sh','w').write(f'''#!/bin/bash
# exit 0: the property held in this demonstration; run in the repository
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
printf '{{"Replace": {{"%s/{ns['pkg']}/seed_demo_test.go": "%s/demo_test.go"}}}}' "$PWD" "$d" > "$t/ov.json"
export SCRATCH=$t
go test -overlay "$t/ov.json"{race} -vet=off -count=1 -timeout 120s -run '^TestSeedDemo$' ./{ns['pkg']}
''')
os.chmod(d+'/demo.sh',0o755)
json.dump({'property':ns['prop'],'needs':ns['needs'],'what_it_breaks':ns['breaks']},open(d+'/meta.json','w'),indent=1)
def run(cmd,**k): return subprocess.run(cmd,cwd=repo,capture_output=True,text=True,**k)
r=run(['bash',d+'/demo.sh'])
ok=True
if r.returncode!=0: print(sid,'DEMO FAILS ON UNCHANGED TREE',r.stdout[-1500:],r.stderr[-800:]); ok=False
for f,o,n in ns['edits']:
    p=repo+'/'+f; s=open(p).read()
    if s.count(o)!=1: print(sid,'edit matches',s.count(o),'times in',f); sys.exit(1)
    open(p,'w').write(s.replace(o,n))
subprocess.call(['bash','-c','. /opt/vp/env.sh; gofmt -l .'],cwd=repo)
open(d+'/patch.diff','w').write(run(['git','diff']).stdout)
r=run(['bash','-c','. /opt/vp/env.sh; go build ./... && go test -vet=off -count=1 ./... 2>&1 | grep -v "no test files"'])
if 'FAIL' in r.stdout or r.stderr: print(sid,'BUILD/TESTS',r.stdout[-1500:],r.stderr[-800:]); ok=False
r=run(['bash',d+'/demo.sh'])
if r.returncode==0: print(sid,'DEMO PASSES WITH THE CHANGE'); ok=False
else: print(sid,'demo:',[l for l in r.stdout.splitlines() if 'seed_demo' in l or 'panic' in l or 'RACE' in l or 'undefined' in l][:3])
shutil.rmtree(w)
print(sid,'OK' if ok else 'NOT OK')
