"""C10: applying a fitted model uses what the last fit learned and leaves it as it was."""
from ..scen import *
from ..deps import *
from ..loops import *
from ..report import run

RULES = {
    'preserved': 'transform, predict and inverse_transform leave every learned attribute with its value',
    'used': 'what they return is computed from the learned attributes that it depends on by definition',
    'reestimated': 'no re-estimated version of a learned attribute takes part in what they return',
    'available': 'they return after every successful fit, whatever the init option was',
}
CODING = ('dictionary_',)
MARKOV = ('dictionary_', 'order_weights', 'transition_matrices')
LEARNED = {KAA: CODING, AA: CODING, GPNH: CODING, CROM: MARKOV, MTD: MARKOV, FKM: ('Theta',), FVX: ('mu', 'A', 'B0'),
           PWV: ('classifier', 'mu', 'A', 'B'), KMC: ('cluster_centers_', 'transition_matrix_', 'kmeans_', 'labels_')}
USES = {('transform', m): LEARNED[m] for m in (KAA, AA, GPNH, FKM, FVX)}
USES.update({('transform', CROM): CODING, ('transform', MTD): CODING, ('transform', PWV): ('classifier',),
             ('transform', KMC): ('kmeans_',), ('predict', KMC): ('kmeans_', 'transition_matrix_'),
             ('predict0', KMC): ('kmeans_',)})
for _m in (CROM, MTD):
    USES.update({('predict', _m): MARKOV, ('predict0', _m): CODING})
for _m in (KAA, AA, GPNH, CROM, MTD):
    USES[('inverse_transform', _m)] = CODING


def configs(tier):
    out = []
    for c in (basic if tier == 'quick' else all_models)(tier):
        m = c['model']
        if m in (KAA, AA, GPNH):
            chs = [('fit_transform', 'transform', 'inverse_transform'), ('fit', 'inverse_transform', 'transform')]
        elif m in (CROM, MTD):
            chs = [('fit_transform', 'transform', 'inverse_transform', 'predict'), ('fit', 'predict', 'transform', 'predict0')]
        elif m in (FKM, FVX, PWV):
            chs = [('fit_transform', 'transform', 'transform'), ('fit', 'transform')]
        else:
            chs = [('fit', 'predict', 'transform'), ('fit_transform', 'transform', 'predict'),
                   ('fit_predict', 'predict0', 'predict')]
        out += [Conf(dict(c, chain='>'.join(ch))) for ch in chs]
    return out


def cells(st, o):
    """(attribute path, location) of the arrays and estimators in the attributes of object o."""
    out, seen = [], set()
    work = [((k,), v) for k, v in st.heap[o.loc].attrs.items()]
    while work:
        p, v = work.pop()
        if isinstance(v, Tup):
            work += [(p + (i,), w) for i, w in enumerate(v.items)]
        elif isinstance(v, MaybeU):
            work.append((p, v.v))
        elif isinstance(v, Alt):
            work += [(p + ('?',), v.a), (p + ('?',), v.b)]
        elif isinstance(v, Ref) and (v.loc, p[0]) not in seen:
            seen.add((v.loc, p[0]))
            c = st.heap.get(v.loc)
            if isinstance(c, (Arr, XObj)):
                out.append((p, v.loc))
            elif isinstance(c, Lst) and c.items is not None:
                work += [(p + (i,), w) for i, w in enumerate(c.items)]
            elif isinstance(c, Dct):
                work += [(p + (i,), w) for i, w in c.items.items()]
            elif isinstance(c, Obj):
                work += [(p + (i,), w) for i, w in c.attrs.items()]
    return out


def key(c):
    """What identifies the value of a cell."""
    if isinstance(c, Arr):
        return c.term
    f = c.attrs.get('__fit__')
    return f if f is not None else c.term


def seal(x, o, names, col, model):
    """Replace the learned values, wherever they are stored, by symbols."""
    st = x.st
    sealed = {}
    for a in names:
        v = x.attrs(o).get(a)
        while isinstance(v, MaybeU):
            v = v.v
        if v is None or v is NONE:
            continue
        if not isinstance(v, Ref) or not isinstance(st.heap[v.loc], (Arr, XObj)):
            col.unk('preserved', '%s.%s' % (model, a), 'value of unknown kind: %r' % (v,))
            continue
        c = st.heap[v.loc]
        old = x.t(v) if isinstance(c, Arr) else key(c)
        s = intern_learned(a, old)
        sealed[a] = s
        for loc, d in list(st.heap.items()):
            if isinstance(d, Arr) and d.term is old:
                st.heap[loc] = Arr(s, d.origin, d.dtype)
            elif isinstance(d, XObj) and key(d) is old:
                if '__fit__' in d.attrs:
                    st.heap[loc] = XObj(d.cls, dict(d.attrs, __fit__=s), d.term)
                else:
                    st.heap[loc] = XObj(d.cls, dict(d.attrs), s)
    return sealed


_N = [0]


def intern_learned(a, old):
    _N[0] += 1
    return atom('learned:%s#%d' % (a, _N[0]), old.shape, kind='arr')


def value(x, v):
    while isinstance(v, MaybeU):
        v = v.v
    if isinstance(v, Ref):
        c = x.st.heap[v.loc]
        return x.t(v) if isinstance(c, Arr) else key(c)
    return x.t(v) if v is not None else None


def analyse(conf, col):
    k = Ctx(conf)
    x = k.x
    m = conf['model']
    model = m.rsplit('.', 1)[1]
    for i, name in enumerate(conf['chain'].split('>')):
        mk = x.mark()
        if i == 0:
            step(k, name, i, True)
            if x.dead:
                col.unk('available', '%s.%s' % (model, name), 'no path returns (see C22)')
                return
            missing = [a for a in LEARNED[m] if a not in x.attrs(k.o)]
            for a in missing:
                col.unk('preserved', '%s.%s' % (model, a), 'no such attribute after %s' % name)
            sealed = seal(x, k.o, [a for a in LEARNED[m] if a not in missing], col, model)
            stored = {loc: (p, key(x.st.heap[loc])) for p, loc in cells(x.st, k.o)
                      if any(key(x.st.heap[loc]) is s for s in sealed.values())}
            continue
        f = '%s.%s' % (model, name)
        before_cells = {p: key(x.st.heap[loc]) for p, loc in cells(x.st, k.o)}
        r = step(k, name, i, False)
        evs = x.new_events(mk)
        if x.dead:
            why = [e for e in evs if e.kind in ('raise', 'noattr', 'unbound', 'none-operand', 'notcallable', 'keyerror',
                                                'indexerror', 'bind', 'shape', 'unfitted')]
            (col.bad if why else col.unk)('available', f, 'cannot return after %s with init=%r: %s' % (
                conf['chain'].split('>')[0], conf.get('init', 'default'), why and '%s in %s' % (why[-1].text, why[-1].func)))
            return
        col.ok('available', f)
        for a, s in sealed.items():
            v = value(x, x.attrs(k.o).get(a))
            if v is s:
                col.ok('preserved', '%s: %s' % (f, a))
            else:
                w = [e for e in evs if e.kind in ('setattr', 'mutate') and (e.data.get('name') == a or e.data.get('old') is s)]
                col.bad('preserved', '%s: %s' % (f, a), 'is replaced by %s%s' % (
                    tm.show(v, 3)[:200] if v is not None else 'nothing', ' at %s' % w[0].text if w else ''),
                    w[0].where() if w else '')
        cl = Closure(cell_terms(x.st, r))
        for a in USES.get((name, m), ()):
            if a in sealed and conf.get('K') != 1:          # one component: its weight is always one
                col.decide(sealed[a] in cl, 'used', '%s: %s' % (f, a), 'the result does not depend on the learned %s' % a
                           if sealed[a] not in cl else '')
        # private copies of a learned value that were changed by the call must not enter the result
        ch = []
        for p, loc in cells(x.st, k.o):
            b = before_cells.get(p)
            now = key(x.st.heap[loc])
            if b is not None and b is not now and any(b is s for s in sealed.values()):
                ch.append((p, now, next(a for a, s in sealed.items() if s is b)))
        hit = False
        for p, now, a in ch:
            phis = [u for u in Closure([now]).seen if u in PHIINFO and PHIINFO[u][0] is sealed[a]]
            bad = [u for u in [now] + phis if u in cl and u is not sealed[a]]
            if bad:
                hit = True
                col.bad('reestimated', '%s: %s' % (f, a), 'the result uses %s, which %s changes: %s' % (
                    '.'.join(map(str, p)), name, tm.show(now, 3)[:200]))
        if not hit:
            col.ok('reestimated', f, '%d stored copies checked' % len(before_cells))
    col.functions |= x.I.seen_functions


def main(tier):
    return run('C10', analyse, configs(tier), RULES,
               'After a symbolic fit every learned value is replaced, wherever the object stores it, by an opaque symbol. '
               'Each later call must leave that symbol in the learned attribute, and the dependency closure of what it '
               'returns must contain the symbols of what it is defined to use.', tier,
               need=('preserved', 'used', 'reestimated', 'available'))
