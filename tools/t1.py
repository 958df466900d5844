import sys,time; sys.path.insert(0,'/verif')
from pydv import mcheck as M, laws as L, smt
from collections import Counter
props=set(sys.argv[1].split(',')) if len(sys.argv)>1 else set(L.ORDER)
combos=None
if len(sys.argv)>2: combos=[L.Mods(*sys.argv[2].split('/'))]
t=time.time()
ck=M.run(props,combos)
print(Counter((o.prop,o.status,o.how) for o in ck.obls)); print(time.time()-t, smt.STATS)
seen=0
for o in ck.obls:
    if o.status!='discharged':
        print(o.status,o.id,'|',o.detail[:600]); seen+=1
        if seen>15: break
