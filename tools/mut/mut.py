#!/usr/bin/env python3
"""usage: mut.py name  (reads edits from stdin: file<<<old===new>>> blocks)"""
import sys,subprocess,re,os,shutil
def mutate(edits, test=False, ids=None):
    d='/tmp/w/m%d'%os.getpid()
    subprocess.run(['rm','-rf',d]); shutil.copytree('/repo',d,ignore=shutil.ignore_patterns('.git','test'),symlinks=True)
    for f,o,n,*al in edits:
        s=open(f'{d}/{f}').read()
        c=s.count(o)
        if c!=1 and not (al and c): print('!! pattern count',c,f,repr(o[:60])); return None
        open(f'{d}/{f}','w').write(s.replace(o,n))
    b=subprocess.run('. /opt/vp/env.sh; cd %s && go build ./...'%d,shell=True,capture_output=True,text=True)
    if b.returncode: print('!! build',b.stderr[:500]); return None
    one=os.environ.get('MUT_ID')
    if one:
        r=subprocess.run('ulimit -v 12000000; timeout 300 /tmp/ck -property %s -verif /tmp/vv -repo %s'%(one,d),shell=True,capture_output=True,text=True)
        return [l.strip()[:220] for l in r.stdout.splitlines() if l.startswith('  ')]
    r=subprocess.run('ulimit -v 12000000; timeout 300 /tmp/ck -all -repo %s'%d,shell=True,capture_output=True,text=True)
    out=[]; cur=None
    for l in r.stdout.splitlines():
        m=re.match(r'([A-Z]\d\d) .* bad=(\d+)',l)
        if m: cur=m.group(1)
        elif l.startswith('   '): out.append(cur+' '+l.strip()[:220])
        else: out.append(l[:200])
    return out
def show(name,edits):
    o=mutate(edits)
    print('##',name,'->', 'n/a' if o is None else ('QUIET' if not o else ''))
    for l in (o or [])[:6]: print('    ',l)
import atexit
def _rm(): subprocess.run(["rm","-rf","/tmp/w/m%d"%os.getpid()])
atexit.register(_rm)
