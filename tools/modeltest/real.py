import json,sys,warnings; warnings.simplefilter('ignore')
sys.path.insert(0,'.'); import fz_src, numpy as np
out=[]
for i,e in enumerate(json.load(open('items.json'))):
    try: r=np.asarray(getattr(fz_src,'f%d'%i)(),dtype=float); out.append([list(r.shape),r.ravel().tolist()])
    except Exception as ex: out.append(repr(ex)[:80])
json.dump(out,open('real.json','w'))
print([ (i,o) for i,o in zip(json.load(open('items.json')),out) if isinstance(o,str)])
