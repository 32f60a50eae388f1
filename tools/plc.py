"""plc.py SPEC.py [ID...]: the spec defines specs=[dict(id, prop, edits=[(file,old,new)], needs, breaks,
cases=[dict(tool,args,files,stdin)], go=demo source instead of cases, check)].
Plants each bug with a demo that runs the command-line tools on the cases (outcomes recorded on the clean tree)."""
import sys,os,json,shutil,subprocess
ns={}
exec(open(sys.argv[1]).read(),ns)
def run(*a,**k): return subprocess.run(a,capture_output=True,text=True,**k)
BASE=run('git','-C','/repo','log','--reverse','--format=%h').stdout.split()[0]
SH='''#!/bin/bash
# run with cwd /repo; exit 0 when the property holds
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
export PATH="$PATH:/opt/veriftools/go1.27.3/bin"
d="$(cd "$(dirname "$0")" && pwd)"
exec go run "$d/demo.go" "$d/cases.json" "$@"
'''
def plant(s):
    print('=====',s['id'],s['prop'],flush=True)
    d='/verif/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
    for f,o,n in s['edits']:
        t=open('/repo/'+f).read()
        if t.count(o)!=1: print('OLD occurs',t.count(o),'times',f); return
        base=run('git','-C','/repo','show',BASE+':'+f).stdout.split('\n')
        gone=[l for l in o.split('\n') if l not in n.split('\n')]
        if gone and not any(l in base for l in gone): print('NOT ORIGINAL LINES:',gone); return
    open(d+'/demo.sh','w').write(SH if 'cases' in s else SH.replace(' "$d/cases.json" "$@"',''))
    json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
    if 'cases' in s:
        shutil.copy('/verif/tools/cli_demo.go',d+'/demo.go')
        cs=[dict(Tool=c.get('tool',s.get('tool')),Args=c['args'],Stdin=c.get('stdin',''),Files=c.get('files',{})) for c in s['cases']]
        json.dump(cs,open(d+'/cases.json','w'),indent=1)
        r=run('bash',d+'/demo.sh','record',cwd='/repo'); print(r.stdout,r.stderr,flush=True)
    else: open(d+'/demo.go','w').write(s['go'])
    for f,o,n in s['edits']:
        p='/repo/'+f; t=open(p).read(); open(p,'w').write(t.replace(o,n))
    subprocess.run(['bash','/verif/tools/plant.sh',s['id']]+([s['check']] if 'check' in s else []))
for s in ns['specs']:
    if len(sys.argv)<3 or s['id'] in sys.argv[2:]: plant(s)
