#!/usr/bin/env python3
"""usage: seed.py tools/seeds/<id>.py ...   Generates /verif/seeded/<id>/ from a spec and verifies it.

A spec defines PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], TEST (Go test source, function TestSeedDemo)."""
import sys,os,subprocess,json,shutil
DEMO='''#!/bin/bash
# run in the repository's top directory
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zz_seed_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
timeout 200 go test -vet=off -overlay "$tmp/overlay.json" -run '^TestSeedDemo$' -count=1 -timeout 120s .
'''
HELP=open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'seed_helpers.go.txt')).read()
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def build(path):
    ns={}; exec(open(path).read(),ns)
    sid=os.path.basename(path)[:-3]
    d='/tmp/w/seed'
    shutil.rmtree(d,ignore_errors=True); sh(f'cp -a /repo {d}')
    sh('git checkout -q -- . && git clean -fdq',cwd=d)
    for f,o,n in ns['EDITS']:
        s=open(f'{d}/{f}').read()
        if s.count(o)!=1: print('!!',sid,'pattern count',s.count(o),f,repr(o[:70])); return False
        open(f'{d}/{f}','w').write(s.replace(o,n))
    out=f'/verif/seeded/{sid}'
    os.makedirs(out,exist_ok=True)
    open(f'{out}/patch.diff','w').write(sh('git diff',cwd=d).stdout)
    open(f'{out}/demo.sh','w').write(DEMO); os.chmod(f'{out}/demo.sh',0o755)
    t=ns['TEST']
    import re
    imports=set(re.findall(r'^//import (\S+)',t,re.M))|{'testing'}
    body=t+HELP
    for pk in ['bytes','fmt','regexp','strings','strconv','os','io','errors','time','sync','image','image/png','image/color','image/jpeg','runtime','path/filepath','sort','math','encoding/binary','compress/zlib','math/rand']:
        if re.search(r'\b%s\.'%pk.split('/')[-1],body): imports.add(pk)
    src='package gopdf\n\nimport (\n'+''.join('\t"%s"\n'%i for i in sorted(imports))+')\n\n'+body
    open(f'{out}/demo_test.go','w').write(src)
    sh(f'. /opt/vp/env.sh; gofmt -w {out}/demo_test.go')
    json.dump({"property":ns['PROP'],"needs":ns['NEEDS'],"what_it_breaks":ns['BREAKS']},open(f'{out}/meta.json','w'),indent=1)
    b=sh('. /opt/vp/env.sh; go build ./...',cwd=d)
    if b.returncode: print('!!',sid,'build',b.stderr[:600]); return False
    ok=sh(f'bash {out}/demo.sh',cwd='/repo')
    if ok.returncode: print('!!',sid,'demo fails on unchanged tree',ok.stdout[-1500:]+ok.stderr[-500:]); return False
    bad=sh(f'bash {out}/demo.sh',cwd=d)
    if bad.returncode==0: print('!!',sid,'demo passes with the patch'); return False
    msg=[l for l in bad.stdout.splitlines() if 'demo_test' in l or 'panic' in l][:2]
    # baseline tests
    t=sh(f'. /opt/vp/env.sh; rm -rf test/out; mkdir -p test/out; go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/w/go.json; python3 /opt/vp/results.py /tmp/w/o.json gojson:/tmp/w/go.json',cwd=d)
    bl=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/w/o.json'))
    def names(x):
        if isinstance(x,dict):
            for k in('passed','pass','stable','tests'):
                if k in x: return x[k]
        return x
    miss=set(names(bl))-set(names(o))
    if miss: print('!!',sid,'baseline tests fail:',sorted(miss)[:4]); return False
    sh('git checkout -q -- . ; git clean -fdq',cwd=d); sh(f'git apply {out}/patch.diff',cwd=d)
    r=sh(f'ulimit -v 12000000; timeout 300 /tmp/ck -all -repo {d}')
    import re
    hits={}; cur=None
    for l in r.stdout.splitlines():
        m=re.match(r'([A-Z]\d\d) ',l)
        if m: cur=m.group(1)
        elif l.startswith('   '): hits.setdefault(cur,l.strip()[:150])
    print('ok' if ns['PROP'] in hits else 'ok-MISSED',sid,ns['PROP'],'caught by',sorted(hits),'|',hits.get(ns['PROP'],''),'| demo:',(msg or [''])[0].strip()[:120])
    return True
for p in sys.argv[1:]: build(p)
shutil.rmtree('/tmp/w/seed',ignore_errors=True)
