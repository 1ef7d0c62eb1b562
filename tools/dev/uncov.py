import json,glob,sys,os
sys.path.insert(0,'/verif')
import ast
an=set()
for f in glob.glob('/verif/evidence/C*.json'):
    an|=set(json.load(open(f))["coverage"]["functions_analysed"])
if os.path.exists('/tmp/vp_ev/C19.json'): an|=set(json.load(open('/tmp/vp_ev/C19.json'))["coverage"]["functions_analysed"])
from sa.index import Index
print(len(an), sorted(an)[:2])
import sa.index
ix=Index() if Index.__init__.__code__.co_argcount==1 else Index(os.environ.get('VP_REPO','/repo'))
rows={}
for k,f in ix.funcs.items():
    if k in an: continue
    n=(f.node.end_lineno-f.node.lineno)
    rows.setdefault(k.split(':')[0],[]).append((n,f.qual))
for m in sorted(rows):
    print(m, sum(n for n,_ in rows[m]), ' '.join(f"{q}({n})" for n,q in sorted(rows[m],reverse=True) if n>=6)[:1500])
