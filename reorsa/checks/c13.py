"""C13: regression designs use the stated lags and read coefficients back in order."""
from ..scen import *
from ..report import run
from ..loops import *
from ..search import *
from ..checks.c06 import walk
from .. import nf

RULES = {
    'readback': 'reported residuals = values - (mu + sum_i A_i x(t-i) + sum_j B_j u(t-j)) with the reported coefficients, each lag once',
    'regression': 'the least squares problem is that regression (its rows scaled by the square root of the weights, when weighted)',
    'component': 'the model of a component is fitted to the samples of that component',
}


def configs(tier):
    out = []
    ps, ss = (0, 1, 2, 3), (0, 1, 2)
    for p in ps:
        for s_ in (None,) + ss:
            for w in (0, 1):
                if tier != 'thorough' and w == 0 and p in (1, 3) and s_ in (1, 2):
                    continue
                out.append(Conf(model=VXM, p=p, s=s_, w=w))
        for s_ in ss:
            for trend in (0, 1):
                for K in (2, 1) + ((3,) if tier == 'thorough' else ()):
                    if (K == 1 and (p, s_) != (2, 1)) or (p == 0 and s_ == 0 and not trend):
                        continue
                    out.append(Conf(model=PWV, p=p, s=s_, trend=trend, K=K))
    for mem in (0, 1, (1, 2), (2, 1), (2, 0)):
        for u in (0, 1):
            out.append(C(FVX, K=2, memory=mem, u=u, chain='fit_transform'))
            if tier == 'thorough':
                out.append(C(FVX, K=2, memory=mem, u=u, init='custom', chain='fit_transform'))
    return out


def clear_(t):
    if t.op == 'diag':
        return True
    return clear(t)


def transparent_(n):
    return all(clear_(nf.BYID[l[0]]) for w in n for l in w) and all(clearc(c) for c in n.values())


def compare(col, rule, f, a, b, what, w=''):
    """Are the matrices a and b equal?"""
    if a is None or b is None:
        col.unk(rule, f, what + ': no value', w)
        return
    try:
        A, B = (v if isinstance(v, dict) else nf.matrix(v) for v in (a, b))
        d = nf.prune(nf.madd(A, B, const(-1)))
    except nf.Hard as e:
        col.unk(rule, f, '%s: not in normal form: %s' % (what, e), w)
        return
    tr = transparent_(A) and transparent_(B)
    col.decide(True if not d else (False if tr else None), rule, f,
               '%s (%d terms)' % (what, len(B)) if not d else '%s: %d terms differ: %s' % (what, len(d), nf.show(d, False)[:160]), w)


def term(x, st_attrs, n):
    v = st_attrs.get(n)
    if v is None:
        return None
    t = x.t(v)
    return t if isinstance(t, Term) and t.shape is not None and t.shape != () else None


def lstsqs(t):
    """The least squares solutions in a term."""
    return [a for a in walk(t) if a.op == 'lstsq']


NONE = const(None)


def analyse(conf, col):
    if conf['model'] == VXM:
        linear(conf, col)
    elif conf['model'] == PWV:
        piecewise(conf, col)
    else:
        fembv(conf, col)


def orn(t):
    return NONE if t is None else t


def linear(conf, col):
    p, s_ = conf['p'], conf['s']
    x = S()
    n, d = iatom('n', 12), iatom('d', 1)
    X = x.arr('X', (n, d))
    kw = {}
    U = None
    if s_ is not None:
        U = x.arr('U', (n, iatom('nu', 1)))
        kw = dict(u=U, s=const(s_))
    o = x.make(VXM, X, p=const(p), **kw)
    w = x.arr('w', (n,), lo=0) if conf['w'] else None
    x.call(o, 'fit', weights=w if w is not None else NONE)
    col.functions |= x.I.seen_functions
    f = 'FEMBVVARXLocalLinearModel.fit'
    if x.dead:
        col.unk('readback', f, 'no path returns (see C22)')
        return
    x.I.sync(x.st)
    nf.fresh()
    if not conf['w'] and not s_:
        x2 = S()
        X2 = x2.arr('X', (n, d))
        U2 = x2.arr('U', (n, iatom('nu', 1))) if s_ is not None else None
        o2 = x2.make(VXM, X2, p=const(p), **(dict(u=U2, s=const(0)) if s_ is not None else {}))
        given(col, x2, o2, X2, U2, p, 'FEMBVVARXLocalLinearModel.set_parameters')
        x.I.sync(x.st)
        nf.fresh()
    vx(col, x, x.attrs(o), x.t(X), x.t(U) if U is not None else None, x.t(w) if w is not None else None, p, s_, f)


def vx(col, x, at, X, U, w, p, s_, f):
    """One fitted linear model: its attributes, the data it got and the weights of the fit."""
    first = const(max(p, s_ or 0))
    R = term(x, at, 'residuals')
    mu = term(x, at, 'mu')
    if R is None or mu is None:
        col.unk('readback', f, 'no residuals or no mu')
        return
    A, B, B0 = (term(x, at, q) for q in ('A', 'B', 'B0'))
    if p and A is None or s_ and B is None or U is not None and B0 is None:
        col.bad('readback', f, 'coefficients are not reported')
        return
    pred = x.spec('varx_prediction', X, first, mu, orn(A), const(p), orn(U), orn(B0), orn(B), const(s_ or 0))
    Y = x.spec('from_row', X, first)
    r = x.spec('from_row', R, first)
    x.I.sync(x.st)
    compare(col, 'readback', f, r, ar.sub(Y, pred), 'residuals')
    ls = lstsqs(mu)
    if len(ls) != 1:
        col.unk('regression', f, '%d least squares problems' % len(ls))
        return
    Z, V = ls[0].args[:2]
    want = x.spec('weighted', w, first, r) if w is not None else r
    x.I.sync(x.st)
    try:
        got = nf.madd(nf.matrix(V), nf.mmul(nf.matrix(Z), nf.matrix(ls[0])), const(-1))
    except nf.Hard as e:
        col.unk('regression', f, 'not in normal form: %s' % e)
        return
    compare(col, 'regression', f, got, want, 'residual of the least squares problem')


def piecewise(conf, col):
    p, s_, K = conf['p'], conf['s'], conf['K']
    k = Ctx(C(PWV, K=K, p=p, s=s_, u=1 if s_ else 0, trend=conf['trend']))
    x = k.x
    X, kw, z = k.data()
    r = k.fit(X, kw)
    f = 'ClusterPWVARX.fit_transform'
    col.functions |= x.I.seen_functions
    if x.dead:
        col.unk('readback', f, 'no path returns (see C22)')
        return
    at = x.attrs(k.o)
    x.I.sync(x.st)
    nf.fresh()
    Xt = x.t(X)
    U = x.t(kw['exog']) if s_ else None
    R, lab = term(x, at, 'residuals'), x.t(r)
    mu, A, B = (term(x, at, q) for q in ('mu', 'A', 'B'))
    if R is None or lab is None:
        col.unk('readback', f, 'no residuals')
        return
    if conf['trend'] and mu is None or p and A is None or s_ and B is None:
        col.bad('readback', f, 'coefficients are not reported')
        return
    first = const(max(p, s_))
    stores = {}
    t = R
    while t.op == 'store':
        stores.setdefault(t.args[1], t.args[2])
        t = t.args[0]
    for c in range(K):
        m = x.spec('equals', lab, const(c))
        comp = [orn(None) if v is None else x.spec('component', v, const(c)) for v in (mu, A, B)]
        pred = x.spec('varx_prediction', Xt, first, comp[0], comp[1], const(p), orn(U), NONE, comp[2], const(s_))
        want = x.spec('rows', ar.sub(x.spec('from_row', Xt, first), pred), m)
        x.I.sync(x.st)
        v = [q for ix, q in stores.items() if ix[0] == ('mask', m)]
        if not v and (c == 0 and K == 1):
            v = [R]
        if not v:
            col.unk('component', f, 'no residuals are stored for the samples of component %d' % c)
            continue
        col.ok('component', f, 'residuals of the samples labelled %d' % c)
        compare(col, 'readback', f, v[0], want, 'residuals of component %d' % c)
        ls = lstsqs(next(q for q in comp if q is not NONE))
        if len(ls) != 1:
            col.unk('regression', f, '%d least squares problems' % len(ls))
            continue
        Z, V = ls[0].args[:2]
        try:
            got = nf.madd(nf.matrix(V), nf.mmul(nf.matrix(Z), nf.matrix(ls[0])), const(-1))
        except nf.Hard as e:
            col.unk('regression', f, 'not in normal form: %s' % e)
            continue
        compare(col, 'regression', f, got, v[0], 'residual of the least squares problem of component %d' % c)


def given(col, x, o, X, U, p, f):
    """Residuals for coefficients that are set, not fitted."""
    n, d = x.t(X).shape
    mu, A = x.arr('mu*', (d,)), x.arr('A*', (const(p), d, d)) if p else NONE
    B0 = x.arr('B0*', (d, x.t(U).shape[1])) if U is not None else NONE
    x.call(o, 'set_parameters', mu, A=A, B0=B0)
    if x.dead:
        col.unk('readback', f, 'no path returns (see C22)')
        return
    col.functions |= x.I.seen_functions
    x.I.sync(x.st)
    nf.fresh()
    R = term(x, x.attrs(o), 'residuals')
    first = const(p)
    pred = x.spec('varx_prediction', x.t(X), first, x.t(mu), x.t(A) if p else NONE, const(p), orn(x.t(U) if U is not None else None),
                  x.t(B0) if U is not None else NONE, NONE, const(0))
    r = x.spec('from_row', R, first)
    Y = x.spec('from_row', x.t(X), first)
    x.I.sync(x.st)
    compare(col, 'readback', f, r, ar.sub(Y, pred), 'residuals for given coefficients')


def fembv(conf, col):
    """At the end of an iteration: the exposed coefficients of each component and the problem they solve."""
    k = Ctx(conf)
    x, y = k.x, k.y
    f = 'FEMBVVARX.fit_transform'
    since = set(LOOPS)
    r = step(k, 'fit_transform', 0, True)
    col.functions |= x.I.seen_functions
    if x.dead:
        col.unk('readback', f, 'no path returns (see C22)')
        return
    ml = main_loops(x, y['maxit'], since)
    if not ml:
        col.unk('readback', f, 'no main loop')
        return
    L, at = ml[0], x.attrs(k.o)
    nf.fresh()

    def A(n):
        t = term(x, at, n)
        return cof(t, L.brk, True) if t is not None else None
    X = x.t(k.X)
    U = x.t(k.fkw['external_factors']) if 'external_factors' in k.fkw else None
    W = cof(x.t(r), L.brk, False)
    first = const(max(k.memory))
    cs = {q: A(q) for q in ('mu', 'A', 'B0')}
    if cs['mu'] is None or max(k.memory) and cs['A'] is None or U is not None and cs['B0'] is None:
        col.bad('readback', f, 'coefficients are not reported')
        return
    for i, p in enumerate(k.memory):
        c = {q: orn(None) if v is None else x.spec('component', v, const(i)) for q, v in cs.items()}
        pred = x.spec('varx_prediction', X, first, c['mu'], c['A'], const(p), orn(U), c['B0'], NONE, const(0))
        ls = lstsqs(c['mu'])
        if len(ls) != 1:
            col.unk('regression', f, '%d least squares problems' % len(ls))
            continue
        R = ar.sub(x.spec('from_row', X, first), pred)
        want = x.spec('weighted', x.spec('column', W, const(i)), const(0), R)
        Z, V = ls[0].args[:2]
        x.I.sync(x.st)
        try:
            got = nf.madd(nf.matrix(V), nf.mmul(nf.matrix(Z), nf.matrix(ls[0])), const(-1))
        except nf.Hard as e:
            col.unk('regression', f, 'not in normal form: %s' % e)
            continue
        compare(col, 'regression', f, got, want, 'residual of the least squares problem of component %d' % i)
        col.ok('component', f, 'component %d' % i)


def main(tier):
    return run('C13', analyse, configs(tier), RULES,
               'The design matrix is expanded into its blocks of columns and multiplied with the least squares solution block '
               'by block; the reported residuals must equal, word by word, the documented prediction error with the reported '
               'coefficients, and the problem handed to the solver must be the same regression.',
               tier, need=('readback', 'regression'))
