"""runs every check on the edits of the given scripts that keep the behaviour: cross.py f06.py f05.py ..."""
import sys,os,types,re
import mut
stub=types.ModuleType('mut')
seen=set()
def show(name,edits):
    if 'benign' not in name: return
    os.environ.pop('MUT_ID',None)
    o=mut.mutate(edits)
    print('##',cur,name,'->', 'n/a' if o is None else ('QUIET' if not o else 'ALARM'),flush=True)
    for l in (o or [])[:5]: print('    ',l,flush=True)
stub.show=show; stub.mutate=mut.mutate
sys.modules['mut']=stub
args=sys.argv[1:]
sys.argv=['x']
for cur in args:
    src=open(os.path.join(os.path.dirname(os.path.abspath(__file__)),cur)).read()
    try: exec(compile(src,cur,'exec'),{'__name__':'x','__file__':cur})
    except SystemExit: pass
