# dbg.py cXX [unit substring...]: run units in this process, printing obligations, invariants and callees
import sys; sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/specs'); sys.setrecursionlimit(20000)
import importlib,time,traceback
from eniv.spec import *
mod=importlib.import_module(sys.argv[1])
for n,u in mod.UNITS.items():
    if len(sys.argv)>2 and not any(a in n for a in sys.argv[2:]): continue
    import time as _t; c=Ctx(n); t=time.time()
    try: u(c)
    except Exception as e: print(''.join(traceback.format_exc().splitlines(True)[-7:]))
    obs=[o for E in c.engines for o in E.obs]
    print(n,'%.1fs'%(time.time()-t),len(obs),'obligations,',sum(not o.ok for o in obs),'failed, solver %.1f calls %d'%(sum(E.P.secs for E in c.engines),sum(E.P.calls for E in c.engines)))
    for o in obs:
        if not o.ok: print('  FAIL',o.name,'|',o.tag,'|',o.where,'|',o.how,'|',(o.model or '')[:300])
    for E in c.engines:
        for k,v in E.loops_seen.items(): print('  loop',k,v)
        print('  inlined',[norm(x)[:60] for x in E.inlined]); print('  trusted',[norm(x)[:60] for x in E.trusted_used])
