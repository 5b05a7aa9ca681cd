import numpy as np
import reorsa.arrays as ar, reorsa.terms as tm
class U(Exception): pass
def mono(items,env):
    r=0.0
    for m,c in items:
        p=1.0
        for b,e in m: p=p*E(b,env)**float(e if not hasattr(e,'op') else E(e,env))
        r=r+float(c)*p
    return r
def dims(sh,env): return tuple(int(E(d,env)) for d in sh)
def E(t,env={}):
    o=t.op; a=t.args
    sh=dims(t.shape,env) if t.shape is not None else None
    r=_E(t,o,a,sh,env)
    r=np.asarray(r,dtype=float)
    return r if r.shape else float(r)
def _E(t,o,a,sh,env):
    if t in env: return env[t]
    if o=='const':
        v=tm.cval(t)
        if v is None: raise U('None')
        return float(v)
    if o=='carr': return np.array([E(x,env) for x in a[0]]).reshape(sh)
    if o=='stack': return np.stack([np.broadcast_to(E(x,env),sh[1:]) for x in a[0]])
    if o=='lin':
        r=np.zeros(sh)
        for k,c in (a[0] or ()): r=r+E(c,env)*E(k,env)
        return r
    if o=='poly': return mono(a[0],env)
    if o in('grp',): return E(a[0],env)
    if o in('mul','smul'):
        r=1.0
        for x in (a[0] if isinstance(a[0],tuple) else a): r=r*E(x,env)
        return r
    if o=='ones': return np.ones(sh)
    if o=='full': return np.full(sh,E(a[1],env))
    if o=='eye': return np.eye(sh[0])
    if o=='diag': return np.diag(E(a[0],env))
    if o=='diagonal': return np.diagonal(E(a[0],env))
    if o=='trace': return np.trace(E(a[0],env))
    if o=='T': return np.asarray(E(a[0],env)).T
    if o=='perm': return np.transpose(E(a[0],env),a[1])
    if o=='dot': return np.dot(E(a[0],env),E(a[1],env))
    if o=='sum': return np.sum(E(a[0],env),axis=None if a[1] is None else tuple(a[1]))
    if o=='red':
        x=E(a[1],env); ax=None if a[2] is None else tuple(a[2])
        if a[0] in('argmax','argmin'): return getattr(np,a[0])(x,axis=ax[0] if ax else None)
        return getattr(np,a[0])(x,axis=ax)
    if o=='count': return np.sum(np.asarray(E(a[0],env))!=0)
    if o=='sort':
        ax=a[1] if len(a)>1 else None
        return np.sort(E(a[0],env),axis=-1 if ax is None or tm.is_const(ax) and tm.cval(ax) is None else int(E(ax,env)))
    if o=='sqrt': return np.sqrt(E(a[0],env))
    if o=='abs': return abs(E(a[0],env))
    if o=='floordiv': return E(a[0],env)//E(a[1],env)
    if o=='mod': return E(a[0],env)%E(a[1],env)
    if o=='pow': return E(a[0],env)**E(a[1],env)
    if o=='reshape' or o=='reshaped': return np.reshape(E(a[0],env),sh)
    if o=='bcast': return np.broadcast_to(E(a[0],env),sh)
    if o=='cat': return np.concatenate([E(x,env) for x in a[0]],axis=a[1])
    if o=='not': return 1.0-np.asarray(E(a[0],env))
    if o=='and': return all(E(x,env) for x in a[0])
    if o=='or': return any(E(x,env) for x in a[0])
    if o=='ge0': return E(a[0],env)>=0
    if o=='eq0': return E(a[0],env)==0
    if o=='ite': return E(a[1],env) if E(a[0],env) else E(a[2],env)
    if o in('sign',): return np.sign(E(a[0],env))
    if o=='where': return np.where(np.asarray(E(a[0],env))!=0,E(a[1],env),E(a[2],env))
    if o=='forall': return np.all(E(a[0],env))
    if o=='arange': return np.arange(*[int(E(q,env)) for q in a])
    if o=='toint': return np.trunc(E(a[0],env))
    if o=='max': return max(E(q,env) for q in (a[0] if isinstance(a[0],tuple) else a))
    if o=='min': return min(E(q,env) for q in (a[0] if isinstance(a[0],tuple) else a))
    if o in('isclose',): return np.isclose(E(a[0],env),E(a[1],env))
    if o=='slicelen':
        q=[None if (z is None or not hasattr(z,'op') or z.op=='const' and tm.cval(z) is None) else int(E(z,env)) for z in a]
        return len(range(q[0])[slice(q[1],q[2],q[3])])
    if o in('repeat','tile','lsort','scatter','sumover'):
        raise U(o+' '+str([str(type(z)) if not hasattr(z,'op') else tm.show(z)[:20] for z in a]))
    if o=='ew':
        xs=[np.asarray(E(x,env)) for x in a[1:]]; n=a[0]
        F={'eq':np.equal,'ne':np.not_equal,'lt':np.less,'le':np.less_equal,'and':np.logical_and,'or':np.logical_or,'not':np.logical_not,'sqrt':np.sqrt,'recip':lambda x:1/x,'pow':np.power,'floordiv':np.floor_divide,'mod':np.mod,'abs':np.abs,'fmax':np.fmax,'fmin':np.fmin,'max':np.maximum,'min':np.minimum,'sign':np.sign,'isclose':np.isclose,'exp':np.exp,'log':np.log,'where':lambda c,x,y:np.where(c!=0,x,y),'floor':np.floor,'ceil':np.ceil}
        if n not in F: raise U('ew '+str(n))
        return F[n](*xs)
    if o=='index':
        x=np.asarray(E(a[0],env)); ix=[]
        for e in a[1]:
            if e[0]=='i': ix.append(int(E(e[1],env)))
            elif e[0]=='a': ix.append(slice(None))
            elif e[0]=='n': ix.append(None)
            elif e[0]=='s' :
                ix.append(slice(*[None if (q is None or not hasattr(q,'op') or q.op=='const' and tm.cval(q) is None) else int(E(q,env)) for q in e[1:]]))
            elif e[0]=='sr': ix.append(slice(*[None if (q is None or not hasattr(q,'op') or q.op=='const' and tm.cval(q) is None) else int(E(q,env)) for q in e[1:]]))
            elif e[0]=='arr': ix.append(np.asarray(E(e[1],env)).astype(int))
            elif e[0]=='mask': ix.append(np.asarray(E(e[1],env))!=0)
            else: raise U('ix '+str(e)[:40])
        return x[tuple(ix)]
    if o=='store':
        x=np.array(E(a[0],env)); ix=[]
        for e in a[1]:
            if e[0]=='i': ix.append(int(E(e[1],env)))
            elif e[0]=='a': ix.append(slice(None))
            elif e[0]=='s': ix.append(slice(*[None if (q is None or q.op=='const' and tm.cval(q) is None) else int(E(q,env)) for q in e[1:]]))
            elif e[0]=='sr': ix.append(slice(*[None if (q is None or not hasattr(q,'op') or q.op=='const' and tm.cval(q) is None) else int(E(q,env)) for q in e[1:]]))
            elif e[0]=='arr': ix.append(np.asarray(E(e[1],env)).astype(int))
            elif e[0]=='mask': ix.append(np.asarray(E(e[1],env))!=0)
            else: raise U('st '+str(e)[:40])
        x[tuple(ix)]=E(a[2],env); return x
    if o=='lam':
        bv,ext,ax,body=a
        n=int(E(ext,env)); return np.stack([np.asarray(E(body,dict(env,**{}) | {bv:float(i)})) for i in range(n)],axis=ax)
    raise U(o+(' '+str(a[0]) if o=='ext' else ''))
