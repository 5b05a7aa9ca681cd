import json,sys,math,itertools
sys.setrecursionlimit(10000)
from reorsa.scen import *
from reorsa.harness import S
import reorsa.arrays as ar, reorsa.terms as tm
items=json.load(open('items.json')); real=json.load(open('real.json'))
x=S()

from ev import E,U
import numpy as np, collections
C_=collections.Counter()
SYM=sys.argv[1]=='s'
V=dict(A=[[1.0,2.0],[3.0,4.0],[6.0,5.0]],B=[[1.0,0.0,2.0],[3.0,1.0,4.0]],C=[[4.0,1.0,2.0],[0.0,3.0,5.0],[7.0,6.0,8.0]],D3=[[[1.0,2.0],[3.0,4.0]],[[5.0,6.0],[7.0,9.0]],[[0.0,3.0],[2.0,8.0]]],v=[1.0,3.0,2.0],w=[2.0,7.0])
n=tm.atom('n_samples',(),kind='int',lo=3) if SYM else const(3); d=tm.atom('n_features',(),kind='int',lo=2) if SYM else const(2)
dm={3:n,2:d}
at={k:tm.atom(k,tuple(dm[q] for q in np.shape(a)),kind='arr',dtype='float') for k,a in V.items()}
env={at[k]:np.array(a) for k,a in V.items()}
if SYM: env.update({n:3.0,d:2.0})
ok=bad=0; GR=collections.defaultdict(list)
for i,e in enumerate(items):
    try: t=x.spec('f%d'%i,*[at[k] for k in ('A','B','C','D3','v','w')])
    except Exception as ex: print('EXC',e,repr(ex)[:100]); continue
    if isinstance(real[i],str): continue
    sh,vals=real[i]
    if t is not None: GR[t].append((e,sh,vals))
    if t is None: print('DEAD',e); continue
    try:
        g=np.asarray(E(t,env))
    except U as ex: C_[str(ex)[:40]]+=1; continue
    except Exception as ex: C_['!! '+repr(ex)[:70]+' '+e[:30]]+=1; continue
    w=np.array(vals).reshape(sh)
    if g.shape!=w.shape or not np.allclose(g,w,equal_nan=True): print('BAD',e,g.tolist(),w.tolist(),tm.show(t)[:80]); bad+=1
    else: ok+=1
print(ok,bad,sum(C_.values())); print(C_.most_common(60))

for t,l in GR.items():
    for e,sh,vals in l[1:]:
        if sh!=l[0][1] or not np.allclose(vals,l[0][2],equal_nan=True): print('COLLIDE',l[0][0],'|',e,'|',tm.show(t)[:60])
