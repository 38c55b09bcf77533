#!/usr/bin/env python3
"""Runs all checks on every planted bug (scratch copies) and writes the table of DESIGN.md."""
import os,re,json,subprocess,shutil
from concurrent.futures import ThreadPoolExecutor
base='/verif/seeded'; ids=sorted(os.listdir(base))
subprocess.run('. /opt/vp/env.sh; cd /verif/checker && go build -o /tmp/ckseed .',shell=True,check=True)
def one(i):
    d=f'/tmp/w/st-{i}'; shutil.rmtree(d,ignore_errors=True)
    subprocess.run(['cp','-a','/repo',d],check=True)
    subprocess.run(['git','apply',f'{base}/{i}/patch.diff'],cwd=d,check=True)
    r=subprocess.run(f'. /opt/vp/env.sh; ulimit -v 12000000; timeout 600 /tmp/ckseed -all -repo {d}',shell=True,capture_output=True,text=True,executable='/bin/bash')
    shutil.rmtree(d,ignore_errors=True)
    hits=[];cur=None
    for l in r.stdout.splitlines():
        m=re.match(r'([A-Z]\d\d) ',l)
        if m: cur=m.group(1)
        elif l.startswith('   ') and cur not in hits: hits.append(cur)
    return i,hits
with ThreadPoolExecutor(4) as ex: rows=list(ex.map(one,ids))
t='| planted bug | property | caught by | what it breaks |\n|---|---|---|---|\n'
for i,h in rows:
    m=json.load(open(f'{base}/{i}/meta.json'))
    if m['property'] not in h: print('MISSED',i,m['property'],h)
    t+=f"| {i} | {m['property']} | {', '.join(h) or 'missed'} | {m['what_it_breaks']} |\n"
s=open('/verif/DESIGN.md').read()
a=s.index('<!-- SEEDS -->')+len('<!-- SEEDS -->\n'); b=s.index('<!-- /SEEDS -->')
open('/verif/DESIGN.md','w').write(s[:a]+t+s[b:])
os.remove('/tmp/ckseed'); print(len(rows),'seeds')
