"""C20: every documented option is honoured."""
from ..scen import *
from ..deps import *
from ..report import run

RULES = {
    'influence': 'the value of the option takes part in computing the outcome that the documentation ties it to',
    'forwarded': 'the option reaches the routine that it is meant for, under that routine\'s own parameter',
    'init': 'init selects the documented initialisation, and only that one',
    'none': 'a documented None value works and has the documented meaning',
    'extra': 'options of one initialisation step do not make another step fail',
    'verbose': 'a positive verbosity prints',
    'generator': 'a generator passed as random_state is the one that is drawn from; None means the global one',
}
ALL = (KAA, AA, GPNH, CROM, MTD, FKM, FVX, PWV, KMC)
FACT = (KAA, AA, GPNH, CROM, MTD)


def short(m):
    return m.rsplit('.', 1)[1]


def conf(m, **kw):
    d = dict(K=2 if m == FVX else K2)
    if m in FACT:
        d['init'] = 'random'
    if m in (FKM, FVX):
        d['tv'] = 1
    if m == FVX:
        d['memory'] = 1
    if m == PWV:
        d.update(p=1, u=1, s=1, full_opts=1, verb=1)
    d.update(kw)
    return C(m, **d)


def configs(tier):
    out = []

    def add(kind, c, **kw):
        out.append(Conf(dict(c, kind=kind, **kw)))
    for m in FACT + (FKM, FVX):
        for tv in ((0, 1) if m in (FKM, FVX) else (0,)):
            c = conf(m, tv=tv) if m in (FKM, FVX) else conf(m)
            add('influence', c, option='tolerance', targets='n_iter_ cost_')
            add('influence', c, option='max_iterations', targets='n_iter_ cost_')
            add('influence', c, option='random_state', targets='result cost_')
    for m in (KAA, AA):
        for i in ('random', 'furthest_sum'):
            add('influence', conf(m, delta=1, init=i), option='delta', targets='result dictionary_ cost_')
    add('influence', conf(AA, kernel_func=1), option='kernel_func', targets='result dictionary_ cost_')
    add('influence', conf(AA, kernel_func=1), option='kernel_func', targets='transform')
    for m in (GPNH, CROM, MTD):
        for i in ('random', 'furthest_sum'):
            add('influence', conf(m, init=i), option='epsilon_states', targets='cost_ dictionary_')
    for l in (None, 1, 2):
        add('influence', conf(MTD, lags=l), option='epsilon_weights', targets='cost_ result')
    for m in (CROM, MTD):
        add('influence', conf(m, lags=2), option='lag1', targets='order_weights transition_matrices predict')
        add('influence', conf(m, lags=2), option='lag2', targets='order_weights transition_matrices predict')
    for m in (CROM, MTD, KMC):
        add('influence', conf(m), option='horizon', targets='predict')
    for m in (FKM, FVX):
        add('influence', conf(m), option='max_tv_norm', targets='result')
    add('influence', conf(FVX, u=1), option='external_factors', targets='result cost_ B0 transform')
    add('influence', conf(FVX, u=1, memory=(1, 0)), option='external_factors', targets='result cost_ B0 transform')
    add('influence', conf(PWV), option='exog', targets='result B mu residuals transform')
    add('influence', conf(PWV, p=0, s=2), option='exog', targets='result B residuals transform')
    for o in ('tolerance', 'max_iterations', 'random_state'):
        add('influence', conf(PWV), option=o, targets='cluster_labels_ result')
    add('influence', conf(KMC), option='random_state', targets='cluster_centers_ labels_ transition_matrix_')
    for meth in ('fit', 'fit_predict', 'fit_transform'):
        add('influence', conf(KMC), option='sample_weight', targets='cluster_centers_ labels_ transition_matrix_', meth=meth)
    for o in ('tol', 'n_init', 'max_iter'):
        add('influence', conf(KMC), option=o, targets='cluster_centers_ labels_')
    for m in FACT:
        for o in ('D0', 'W0') + (('L0', 'T0') if m == MTD else ()):
            add('influence', conf(m, init='custom', lags=2 if m == MTD else None), option=o, targets='result cost_')
    add('influence', conf(FKM, init='custom'), option='P0', targets='result cost_')
    add('influence', conf(FKM, init='custom', mono=0), option='W0', targets='result cost_')
    for o in ('mu0', 'A0', 'B00'):
        add('influence', conf(FVX, init='custom', u=1), option=o, targets='result cost_')
    for m in (PWV, KMC):
        add('forwarded', conf(m))
    for m in FACT:
        add('fsum', conf(m, init='furthest_sum', initkw=1, exclude=1))
        if m in (KAA, AA):
            add('fsum', conf(m, init=None, initkw=1, exclude=1))
        for i in (None, 'random', 'furthest_sum', 'custom', 'default'):
            add('init', conf(m, init=i))
        add('extra', conf(m, init='random', initkw=1, exclude=1))
        add('extra', conf(m, init='custom', initkw=1, exclude=1))
        add('none', conf(m, K='none'), option='n_components')
    for m in (FKM, FVX):
        for i in (None, 'random', 'custom', 'default'):
            add('init', conf(m, init=i))
        add('none', conf(m, K='none', memory=None), option='n_components')
        add('none', conf(m, tv=0), option='max_tv_norm')
    add('none', conf(FVX, memory=None), option='memory')
    add('none', conf(CROM), option='lags')
    add('none', conf(MTD), option='lags')
    add('none', conf(AA), option='kernel_func')
    add('none', conf(KMC, K='none'), option='n_clusters')
    add('none', conf(PWV, K='none'), option='n_components')
    for m in ALL:
        add('generator', conf(m), rs='instance')
        add('generator', conf(m), rs='None')
        if m != KMC:
            add('verbose', conf(m))
    return out


def opt_atom(k, o):
    kw = {'tolerance': 'tol', 'max_iterations': 'maxit', 'random_state': 'seed', 'verbose': 'verb'}
    if o in kw:
        return k.y[kw[o]]
    if o in k.kw:
        return k.x.t(k.kw[o]) if not isinstance(k.kw[o], Term) else k.kw[o]
    for l in k.lags:
        if l.args[0] == o:
            return l
    names = {'external_factors': 'U', 'exog': 'U'}
    n = names.get(o, o)
    return tm.find_atom(n)


def influence(conf, col):
    m = conf['model']
    o = conf['option']
    if o in ('tol', 'n_init', 'max_iter'):
        conf['extra'] = {o: fatom('opt_' + o, 0) if o == 'tol' else iatom('opt_' + o, 1)}
    k = Ctx(conf)
    x = k.x
    X, kw, z = k.data()
    if o == 'sample_weight':
        kw['sample_weight'] = x.arr('sample_weight', (z['n'],))
    u = kw.get('exog') or kw.get('external_factors')
    if u is not None:
        k.U = x.t(u)
    r = k.fit(X, kw, conf.get('meth', 'fit_transform'))
    col.functions |= x.I.seen_functions
    if x.dead:
        col.unk('influence', '%s: %s' % (short(m), o), 'no path returns (see C22)')
        return
    if o == 'horizon':
        a = iatom('horizon', 0)
    else:
        a = opt_atom(k, o)
    for t in conf['targets'].split():
        if t == 'result':
            v = r
        elif t in ('transform', 'predict'):
            v = step(k, t, 1, False)
            if x.dead:
                col.unk('influence', '%s.%s: %s' % (short(m), t, o), 'no path returns (see C22)')
                return
            if t == 'transform' and o in ('external_factors', 'exog'):
                a = tm.find_atom("U'")
        else:
            v = x.attrs(k.o).get(t)
            if v is None:
                col.unk('influence', '%s.%s: %s' % (short(m), t, o), 'no such attribute')
                continue
        c = '%s: %s' % (short(m), o)
        if o == 'delta':
            ok = a in Closure(cell_terms(x.st, v), control=False)
        else:
            ok = a in Closure(cell_terms(x.st, v))
        col.decide(ok, 'influence', c, '' if ok else '%s does not influence %s' % (o, t))


def xobjs(x, v, cls):
    out, seen, work = [], set(), [v]
    while work:
        w = work.pop()
        if isinstance(w, Ref) and w.loc not in seen:
            seen.add(w.loc)
            c = x.st.heap.get(w.loc)
            if isinstance(c, XObj) and c.cls == cls:
                out.append(c)
            elif isinstance(c, Obj):
                work += list(c.attrs.values())
        elif isinstance(w, MaybeU):
            work.append(w.v)
        elif isinstance(w, Alt):
            work += [w.a, w.b]
    return out


def forwarded(conf, col):
    m = conf['model']
    if m == KMC:
        conf['extra'] = {'tol': fatom('opt_tol', 0), 'n_init': iatom('opt_n_init', 1), 'max_iter': iatom('opt_max_iter', 1),
                         'init': s('random')}
    k = Ctx(conf)
    x = k.x
    step(k, 'fit', 0, True)
    col.functions |= x.I.seen_functions
    if x.dead:
        col.unk('forwarded', short(m), 'no path returns (see C22)')
        return
    km = xobjs(x, k.o, 'KMeans')
    if not km:
        col.unk('forwarded', short(m), 'no KMeans object found')
        return
    want = dict(max_iter=k.y['maxit'], tol=k.y['tol'], n_clusters=k.K, random_state=k.y['seed'], verbose=k.y['verb'])
    if m == KMC:
        want = dict(conf['extra'], n_clusters=k.K, random_state=k.y['seed'])
    for o, a in want.items():
        for c in km:
            v = c.attrs.get(o)
            got = x.t(v) if v is not None else None
            ok = got is a
            if not ok and isinstance(got, Term) and all(a in tm.free_atoms(l) for l in leaves(got)):
                ok = None
            col.decide(ok, 'forwarded', '%s: KMeans(%s)' % (short(m), o), '' if ok else 'is %s instead of %s' % (
                got is not None and tm.show(got, 2), tm.show(a)))


def leaves(t):
    """The alternatives of a conditional value."""
    if t.op == 'ite':
        return leaves(t.args[1]) + leaves(t.args[2])
    return [t]


def fsum_events(x):
    return [e for e in x.I.events if e.kind == 'call-summary' and e.data['name'] == 'furthest_sum']


def fsum(conf, col):
    m = conf['model']
    k = Ctx(conf)
    x = k.x
    X, kw, z = k.data()
    k.fit(X, kw, 'fit')
    col.functions |= x.I.seen_functions
    ev = fsum_events(x)
    if not ev:
        col.decide(False if not x.dead else None, 'forwarded', '%s: furthest_sum' % short(m),
                   'init=%r does not run FurthestSum' % conf['init'])
        return
    e = ev[0]
    want = dict(n=k.K, start=kw['start_index'], steps=kw['n_extra_steps'], exclude=x.t(kw['exclude']))
    for p, a in want.items():
        got = e.data[p]
        ok = got is a or p == 'exclude' and isinstance(got, Term) and (got.op == 'carr' or got.op == 'list') and got is a
        if not ok and p == 'exclude' and isinstance(got, Term):
            ok = None if const(1) in tm.subterms(got) else False
        elif not ok and isinstance(got, Term) and a in tm.free_atoms(got):
            ok = None if all(a in tm.free_atoms(l) for l in leaves(got)) else False
        col.decide(ok, 'forwarded', '%s: furthest_sum(%s)' % (short(m), p), '' if ok else 'is %s instead of %s' % (
            tm.show(got, 3), tm.show(a, 3)), e.where())


def init_case(conf, col):
    m, i = conf['model'], conf['init']
    k = Ctx(conf)
    x = k.x
    step(k, 'fit', 0, True)
    col.functions |= x.I.seen_functions
    c = '%s(init=%r)' % (short(m), i)
    if x.dead:
        why = [e for e in x.I.events if e.kind in ('raise', 'bind', 'none-operand', 'noattr', 'unbound', 'shape')]
        (col.bad if why else col.unk)('init', c, 'cannot fit: %s' % (why and '%s in %s' % (why[-1].text, why[-1].func)))
        return
    fs = fsum_events(x)
    want_fs = i == 'furthest_sum' or i in (None, 'default') and m in (KAA, AA)
    if m in FACT and i != 'custom':
        col.decide(bool(fs) is want_fs, 'init', c, 'FurthestSum is %srun' % ('' if fs else 'not '))
    if i == 'custom':
        got = Closure([t for v in x.attrs(k.o).values() for t in cell_terms(x.st, v)])
        starts = ('P0', 'W0') if m == FKM else ('W0', 'mu0') if m == FVX else ('D0', 'W0')
        used = {t.args[0] for t in got.seen if t.op == 'atom'}
        miss = [s_ for s_ in starts if s_ not in used and not (s_ == 'W0' and m in (FKM, FVX))]
        col.decide(not fs and not miss, 'init', c, 'custom starting values %s unused' % miss if miss else
                   'FurthestSum is run' if fs else '')
    elif m in (FKM, FVX):
        col.ok('init', c)


def none_case(conf, col):
    m, o = conf['model'], conf['option']
    k = Ctx(conf)
    x = k.x
    c = '%s(%s=None)' % (short(m), o)
    if o in ('n_clusters',) or m == PWV and o == 'n_components':
        k.K = const(2) if m == KMC else iatom('n_features', 1)
    if not x.dead:
        if m == PWV and o == 'n_components':
            conf['K'] = K2
            k.conf = conf
        step(k, 'fit', 0, True)
    col.functions |= x.I.seen_functions
    if x.dead:
        why = [e for e in x.I.events if e.kind in ('raise', 'bind', 'none-operand', 'noattr', 'unbound', 'shape')]
        (col.bad if why else col.unk)('none', c, 'cannot fit: %s' % (why and '%s in %s' % (why[-1].text, why[-1].func)))
        return
    at = x.attrs(k.o)
    if o == 'n_components' and m in FACT + (FKM,):
        a = 'n_components_'
        v = x.t(at[a]) if a in at else None
        col.decide(None if v is None else bool(v is k.K), 'none', c, '' if v is k.K else '%s is %s' % (a, v is not None and tm.show(v)))
    elif o == 'lags':
        v = x.t(at['lags']) if 'lags' in at else None
        ok = v is not None and (v is ar.carr([const(1)], (const(1),)) or ar.index(v, (('i', const(0)),)) is const(1) and
                                v.shape == (const(1),))
        col.decide(ok or None if v is None else bool(ok), 'none', c, '' if ok else 'lags are %s' % (v is not None and tm.show(v, 3)))
    elif o == 'memory':
        v = at.get('A')
        col.decide(v is NONE if v is not None else None, 'none', c, '' if v is NONE else 'autoregressive coefficients are fitted')
    elif o == 'n_clusters':
        km = xobjs(x, k.o, 'KMeans')
        got = x.t(km[0].attrs.get('n_clusters', const(8))) if km else None
        col.decide(None if got is None else got is const(2), 'none', c, '' if got is const(2) else 'n_clusters is %s' % (
            got is not None and tm.show(got)))
    else:
        col.ok('none', c, 'the fit returns')


def extra(conf, col):
    m = conf['model']
    k = Ctx(conf)
    x = k.x
    X, kw, z = k.data()
    k.fit(X, kw, 'fit')
    col.functions |= x.I.seen_functions
    c = '%s(init=%r) with FurthestSum options' % (short(m), conf['init'])
    bad = [e for e in x.I.events if e.kind == 'bind']
    for e in bad:
        col.bad('extra', c, '%s: %s' % (e.text[:100], e.data), e.where())
    if not bad:
        why = [e for e in x.I.events if e.kind in ('raise', 'none-operand', 'noattr', 'unbound', 'shape')]
        col.decide(not x.dead, 'extra', c, 'cannot fit: %s' % why[-1].text if x.dead and why else '')


def verbose(conf, col):
    m = conf['model']
    k = Ctx(conf)
    x = k.x
    step(k, 'fit', 0, True)
    col.functions |= x.I.seen_functions
    c = short(m)
    if x.dead:
        col.unk('verbose', c, 'no path returns (see C22)')
        return
    v = k.y['verb']
    pr = [e for e in x.I.events if e.kind == 'print']
    if any(any(v in tm.free_atoms(t) for t in pc_terms(e)) for e in pr):
        col.ok('verbose', c, '%d print statements' % len(pr))
        return
    km = xobjs(x, k.o, 'KMeans')
    if any(x.t(q.attrs['verbose']) is v for q in km if 'verbose' in q.attrs):
        col.ok('verbose', c, 'the verbosity is passed to KMeans')
        return
    col.bad('verbose', c, 'nothing is printed under a condition on verbose')


def generator(conf, col):
    m = conf['model']
    inst = conf['rs'] == 'instance'
    a = atom('user-generator', (), kind='rng')
    k = build_with_rng(conf, a if inst else None)
    x = k.x
    step(k, 'fit', 0, True)
    col.functions |= x.I.seen_functions
    c = '%s(random_state=%s)' % (short(m), 'RandomState' if inst else 'None')
    if x.dead:
        why = [e for e in x.I.events if e.kind in ('raise', 'bind', 'none-operand', 'noattr', 'unbound', 'shape')]
        (col.bad if why else col.unk)('generator', c, 'cannot fit: %s' % (why and '%s in %s' % (why[-1].text, why[-1].func)))
        return
    dr = [e for e in x.I.events if e.kind == 'draw']
    bad = False
    for e in dr:
        cl = Closure([e.data['state']])
        src = {u.args[0] for u in cl.seen if u.op == 'atom' and u.args[0] in ('user-generator', 'numpy.random')}
        if src != ({'user-generator'} if inst else {'numpy.random'}):
            bad = True
            col.bad('generator', c, 'draws from %s at %s' % (tm.show(e.data['state'], 3)[:150], e.text[:100]), e.where())
    if not bad:
        col.decide(bool(dr) or None, 'generator', c, '%d draws' % len(dr))


def build_with_rng(conf, a):
    old = S.make

    def make(self, q, *args, **kw):
        kw['random_state'] = self.I.alloc(self.st, Rng(a), 'g') if a is not None else NONE
        return old(self, q, *args, **kw)
    S.make = make
    try:
        return Ctx(conf)
    finally:
        S.make = old


KINDS = dict(influence=influence, forwarded=forwarded, fsum=fsum, init=init_case, none=none_case, extra=extra,
             verbose=verbose, generator=generator)


def analyse(conf, col):
    KINDS[conf['kind']](Conf(conf), col)


def main(tier):
    return run('C20', analyse, configs(tier), RULES,
               'Every documented option is a symbol of its own; the dependency closure of the outcome it is tied to must '
               'contain that symbol, the parameters that KMeans and FurthestSum receive must be the symbols of the options '
               'of that meaning, the chosen initialisation must be the one that runs, and documented None values must fit.',
               tier, need=('influence', 'forwarded', 'init', 'none', 'extra', 'verbose', 'generator'))
