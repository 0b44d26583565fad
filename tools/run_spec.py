import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(30000)
import importlib, json, time
from pyvc.interp import Interp, PyRaise
from pyvc import vc
pid=sys.argv[1]
sp=importlib.import_module('specs.'+pid).spec
I=Interp()
from specs.lib import PRELOAD
for m in PRELOAD:
    try: I.import_module(m)
    except Exception as e: print('preload',m,repr(e))
for ob in sp.obls:
    if len(sys.argv)>2 and sys.argv[2]!='-v' and sys.argv[2] not in ob.name: continue
    r=vc.run(I,ob); N=globals().get('N',0)+sum(r.discharged.values()); K=globals().get('K',0)+1
    if '-v' in sys.argv or r.failures or r.undecided: print('%-60s paths=%d inf=%d ok=%d fail=%d und=%d q=%d wall=%.1f'%(ob.name[:60],r.paths,r.infeasible,sum(r.discharged.values()),len(r.failures),len(r.undecided),r.queries,r.wall))
    seen=set()
    for f in r.failures:
        if f['name'] in seen: continue
        seen.add(f['name'])
        print('   FAIL',f['name'],f['detail'][:300],json.dumps(f['case'],default=str)[:300],f['tainted'])
    seen=set()
    for n,w in r.undecided:
        if w[:100] in seen: continue
        seen.add(w[:100])
        print('   UND',n,w[:100],w[100:][-2600:])

print('obligations',K,'discharged',N)
