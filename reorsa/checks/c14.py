"""C14: each lag is paired with its own matrix, in fits and in forecasts."""
from ..scen import *
from ..loops import *
from ..values import Ref
from ..report import run
from ..search import *
from ..stoch import plain_counts, ways, walk, Sto, constant_fill
from .. import nf

RULES = {
    'objective': 'the objective of the Markov parameters is the squared distance of the weights from the prediction that pairs '
                 'every lag with its own matrix',
    'forecast': 'on a grid of sizes, lags and horizons, row i of the forecast is the one-step prediction applied horizon times to '
                'the weights up to sample i',
    'any-horizon': 'for every horizon and number of samples, by induction on the window of past weights',
    'now': 'horizon zero returns the reconstruction',
    'membership': 'memberships start at the cluster of each sample',
    'chain': 'memberships after h steps are h products with the transposed transition matrix',
    'counts': 'entry j, k of the transition matrix counts moves from cluster k to cluster j, per visit of cluster k that has a '
              'successor',
}

GRID = [((1,), 1, 4), ((1,), 3, 4), ((2,), 1, 4), ((2,), 3, 4), ((1, 2), 1, 4), ((1, 2), 2, 4), ((2, 1), 3, 4), ((1, 3), 2, 5),
        ((3, 1), 4, 5), ((1, 2, 3), 3, 5)]
MORE = [((2, 3), 5, 6), ((3, 2, 1), 4, 6), ((4,), 5, 6), ((1, 4), 6, 7), ((1, 2, 3, 4), 5, 7)]


def configs(tier):
    out = []
    for m in (MTD, CROM):
        for lags in (None, 1, 2) + ((3,) if tier == 'thorough' else ()):
            out.append(C(m, rule='objective', init='random', K=K2, lags=lags))
        out.append(C(m, rule='objective', init='custom', K=K2, lags=2))
        for g in GRID + (MORE if tier == 'thorough' else []):
            out.append(C(m, rule='forecast', init='random', K=K2, grid=g))
        for lags in (1, 2) + ((3,) if tier == 'thorough' else ()):
            out.append(C(m, rule='any', init='random', K=K2, lags=lags))
        out.append(C(m, rule='now', init='random', K=K2, lags=2))
    for K in (2, 3):
        for h in (0, 1, 2, 3):
            out.append(C(KMC, rule='chain', K=K, h=h))
        out.append(C(KMC, rule='chain', K=K, h=None))
    out.append(C(KMC, rule='chain', K=K2, h=None))
    out.append(C(KMC, rule='chain', K=K2, h=2))
    for K in (1, 2, 3):
        for meth in ('fit', 'fit_transform', 'fit_predict'):
            out.append(C(KMC, rule='counts', K=K, meth=meth))
    return out


def analyse(conf, col):
    {'objective': objective, 'forecast': forecast, 'any': anyhorizon, 'now': forecast, 'chain': chain, 'counts': counts}[
        conf['rule']](conf, col)


# ------------------------------------------------------------------- fits

def objective(conf, col):
    k = Ctx(conf)
    x, y = k.x, k.y
    model = conf['model'].rsplit('.', 1)[1]
    since = set(LOOPS)
    r = step(k, 'fit_transform', 0, True)
    col.functions |= x.I.seen_functions
    f = '%s.fit_transform' % model
    if x.dead:
        return col.unk('objective', f, 'no path returns (see C22)')
    at = x.attrs(k.o)
    done = 0
    om, T, W = x.t(at['order_weights']), x.t(at['transition_matrices']), x.t(r)
    lags = k.lags or [const(1)]
    ml = lags[0] if len(lags) == 1 else ar.smax(lags)
    for M, searches in mains(x, k, y, since, True, at):
        L = M.L
        w = '%s:%s' % (L.file, getattr(L.node, 'lineno', 0))
        heads = {a: cof(t, L.brk, False) for a, t in (('om', om), ('T', T), ('W', W))}
        if heads['T'].op != 'phi' or heads['T'] not in L.phis:
            continue
        done += 1
        if M.H is None:
            col.unk('objective', f, 'the objective was not recognised', w)
            continue
        cl = M.closure
        H = M.H
        s = cl.close(x.spec('weights_penalty', heads['W'], lags, heads['om'], heads['T'], ml))
        x.I.sync(x.st)
        joint = heads['W'] in L.phis
        if joint:
            s = s_mul(k.kw['epsilon_weights'], s)
            s = s_add(s, cl.close(x.spec('reconstruction', x.t(k.X), heads['W'], cof(x.t(at['dictionary_']), L.brk, False))))
            D = cl.close(cof(x.t(at['dictionary_']), L.brk, False))
            s = s_add(s, s_mul(k.kw['epsilon_states'], x.spec('states', D, D.shape[0])))
            x.I.sync(x.st)
        if same(H, s):
            col.ok('objective', f, 'identical to the reference', w)
            continue
        try:
            for mx, facts in orders(k, H, s):
                by_orders(k, facts, lambda base: differ(col, f, tm.subst(H, mx), tm.subst(s, mx), w))
        except nf.Hard as e:
            col.unk('objective', f, 'not in normal form: %s' % e, w)
        x.I.sync(x.st)
    if not done:
        col.unk('objective', f, 'no loop that moves the transition matrices found')


def differ(col, f, a, b, w, whole=True):
    """The part that depends on the Markov parameters must agree up to a positive factor; the rest is C03's."""
    A, B = nf.scalar(a), nf.scalar(b)
    d = nf.sdiff(A, B)
    tr = transparent(A, True) and transparent(B, True)
    if d and not tr:
        # the weights of the first stage as they are after the last iteration
        mp = {c: FALSE for t in (a, b) for c in flags(t)}
        if mp:
            nf.fresh()
            return differ(col, f, tm.subst(a, mp), tm.subst(b, mp), w, False)
    if not whole and not d:
        return col.unk('objective', f, 'equal in one case only', w)
    col.decide(True if not d else (False if tr else None), 'objective', f,
               'equal normal forms (%d terms)' % len(B) if not d else 'the objective differs in %d terms: %s' % (
                   len(d), nf.show(d)[:160]), w)


# ------------------------------------------------------------------- forecasts of the lag-weighted models

def fitted(k):
    """Fit, then replace the learned parameters by arbitrary ones."""
    x = k.x
    step(k, 'fit', 0, True)
    if x.dead:
        return None
    at = x.attrs(k.o)
    new = {}
    for a in ('order_weights', 'transition_matrices', 'dictionary_', 'transition_matrix_'):
        if a not in at:
            continue
        t = x.t(at[a])
        if not isinstance(t, Term) or not t.shape:
            return None
        v = x.arr(a.strip('_'), t.shape)
        new[a] = x.t(v)
        for b, w in sorted(at.items()):
            u = x.t(w) if not isinstance(w, (str, bytes)) else None
            if u is t:
                x.I.setattr_(x.st, k.o, b, v, None)
    return new


def predicted(k, n, horizon):
    """predict with the transform of the data replaced by arbitrary weights: (weights, result)."""
    x = k.x
    W = x.arr('W', (n, k.K))
    hits = []

    def transform(I, st, args, kw):
        if isinstance(args[0], Ref) and args[0].loc == k.o.loc:
            hits.append(1)
            return W
        return None
    x.I.options['override'] = {'transform': transform}
    X = x.arr('new data', (n, k.sz['d']))
    r = x.call(k.o, 'predict', X, horizon=horizon)
    x.I.options['override'] = None
    return x.t(W), r, hits


def forecast(conf, col):
    lags, h, n = conf.get('grid') or ((1, 2), 0, 4)
    conf = Conf(dict(conf))
    k = Ctx(Conf(dict(conf, lags=None)))
    x = k.x
    kw = dict(k.kw)
    kw['lags'] = x.lst([s(l) for l in lags], name='lags')
    k.o = x.make(k.model, k.K, **kw)
    model = conf['model'].rsplit('.', 1)[1]
    f = '%s.predict (lags %s, horizon %d)' % (model, list(lags), h)
    rule = 'now' if conf['rule'] == 'now' else 'forecast'
    new = fitted(k)
    if new is None or len(new) < 3:
        return col.unk(rule, f, 'the fitted parameters were not found')
    W, r, hits = predicted(k, const(n), s(h))
    col.functions |= x.I.seen_functions
    if x.dead:
        return col.unk(rule, f, 'no path returns (see C22)')
    if not hits:
        return col.unk(rule, f, 'the forecast does not start from transform')
    r = x.t(r)
    ml = max(lags)
    if not isinstance(r, Term) or r.shape is None or len(r.shape) != 2:
        return col.unk(rule, f, 'the result is no matrix')
    first = 0 if h == 0 else ml - 1
    nf.fresh()
    for i in range(first, n):
        want = x.spec('iterated', W, const(i), x_lags(k, lags), new['order_weights'], new['transition_matrices'], const(h))
        want = x.spec('reconstructed', want, new['dictionary_'])
        x.I.sync(x.st)
        vector(col, rule, f + ': row %d' % i, row(r, i), want)


def x_lags(k, lags):
    return [s(l) for l in lags]


def row(t, i):
    """Row i of a matrix, through products, sums and stacks."""
    if t.op == 'dot' and len(t.args[0].shape) == 2 and len(t.args[1].shape) == 2:
        return ar.dot(row(t.args[0], i), t.args[1])
    if t.op == 'lin' and t.args[0] and all(a.shape == t.shape for a, _ in t.args[0]):
        out = None
        for a, c in t.args[0]:
            v = ar.scale(row(a, i), c)
            out = v if out is None else ar.add(out, v)
        return out
    return ar.index(t, (('i', const(i)), ('a',)))


def vector(col, rule, f, a, b, state=()):
    if prove.prove_eq(a, b):
        col.ok(rule, f, 'identical to the reference')
        return
    try:
        A, B = nf.matrix(a), nf.matrix(b)
    except nf.Hard as e:
        col.unk(rule, f, 'not in normal form: %s' % e)
        return
    d = nf.prune(nf.madd(A, B, const(-1)))
    tr = transparent(A, False) and transparent(B, False) and not any(
        p.op == 'phi' and p not in state for t in (a, b) for p in tm.free_atoms(t))
    col.decide(True if not d else (False if tr else None), rule, f,
               'equal normal forms (%d words)' % len(B) if not d else 'differs from the reference in %d words: %s; reference: %s' % (
                   len(d), nf.show(A, False)[:200], nf.show(B, False)[:200]))


def anyhorizon(conf, col):
    k = Ctx(conf)
    x = k.x
    model = conf['model'].rsplit('.', 1)[1]
    f = '%s.predict' % model
    rule = 'any-horizon'
    new = fitted(k)
    if new is None or len(new) < 3:
        return col.unk(rule, f, 'the fitted parameters were not found')
    n = iatom("n_new", 1)
    h = iatom('horizon', 1)
    lags = k.lags
    ml = lags[0] if len(lags) == 1 else ar.smax(lags)
    x.fact(ge(n, s_add(ml, const(2))))
    W, r, hits = predicted(k, n, h)
    col.functions |= x.I.seen_functions
    if x.dead or not hits:
        return col.unk(rule, f, 'no path returns, or the forecast does not start from transform')
    r = x.t(r)
    x.I.sync(x.st)
    D = new['dictionary_']
    if r.op != 'dot' or r.args[1] is not D or r.args[0].op != 'phi':
        return col.unk(rule, f, 'the result is no product of forecast weights and dictionary')
    P = r.args[0]
    e, b, _ = PHIINFO[P][:3]
    L = next((l for l in session_loops(x, set()) if P in l.phis), None)
    if L is None or L.n is None or not isinstance(b, Term) or b.op != 'store' or b.args[0] is not P or len(b.args[1]) != 2:
        return col.unk(rule, f, 'the loop over samples is not understood')
    (kind, at), rest = b.args[1][0][:2], b.args[1][1]
    lo = s_sub(at, L.k) if kind == 'i' else None
    if lo is None or mentions(lo, L.k) or rest != ('a',):
        return col.unk(rule, f, 'the rows are not filled one after the other')
    v = b.args[2]
    ok = prove.prove_eq(lo, s_sub(ml, const(1))) and prove.prove_eq(s_add(lo, L.n), n)
    col.decide(True if ok else None, rule, f + ': samples', 'rows %s to %s' % (tm.show(lo)[:40], tm.show(s_add(lo, L.n))[:40]))
    if v.op != 'index' or v.args[0].op != 'phi' or v.args[1][0][0] != 'i':
        return col.unk(rule, f, 'the value of a row is not read from a window')
    Q = v.args[0]
    last = v.args[1][0][1]
    qe, qb = PHIINFO[Q][:2]
    L2 = next((l for l in session_loops(x, set()) if Q in l.phis), None)
    if L2 is None or L2.n is None or not isinstance(qb, Term):
        return col.unk(rule, f, 'the loop over steps is not understood')
    col.decide(True if prove.prove_eq(L2.n, h) and L2.guard is None and not L2.breaks else None, rule, f + ': steps',
               'repeated %s times' % tm.show(L2.n)[:40])
    m = Q.shape[0]
    col.decide(True if prove.prove_eq(m, ml) and prove.prove_eq(last, s_sub(ml, const(1))) else None, rule, f + ': window',
               'the last of %s rows' % tm.show(m)[:40])
    start = ar.index(W, (('s', s_add(s_sub(s_add(L.k, lo), ml), const(1)), s_add(s_add(L.k, lo), const(1))), ('a',)))
    x.I.sync(x.st)
    col.decide(True if prove.prove_eq(qe, start) else None, rule, f + ': start', 'from the weights up to sample i: %s' % tm.show(qe)[:60])
    one = x.spec('iterated', Q, s_sub(ml, const(1)), lags, new['order_weights'], new['transition_matrices'], const(1))
    x.I.sync(x.st)
    keep = ar.index(Q, (('s', const(1), ml), ('a',)))
    if qb.op != 'cat' or len(qb.args[0]) != 2 or qb.args[1] != 0 and qb.args[1] is not ZERO_:
        return col.unk(rule, f, 'the window is not moved by one row')
    a, z = qb.args[0]
    col.decide(True if prove.prove_eq(a, keep) else None, rule, f + ': move', 'drops the oldest row')
    if z.op == 'index' and z.args[1] == (('n',), ('a',)):
        z = z.args[0]
    else:
        z = ar.index(z, (('i', const(0)), ('a',)))
    nf.fresh()
    for mx, facts in orders(k, z, one):
        by_orders(k, facts, lambda base: vector(col, rule, f + ': step', tm.subst(z, mx), tm.subst(one, mx), (Q,)))
    x.I.sync(x.st)


ZERO_ = const(0)


# ------------------------------------------------------------------- k-means

def of_power(r):
    """(memberships, M, exponent, M transposed?) when r is memberships . M^exponent, or None."""
    turned = False
    if r.op == 'T':
        r, turned = r.args[0], True
    if r.op != 'dot' or len(r.args) != 2:
        return None
    a, P = r.args if not turned else (r.args[1], r.args[0])
    if turned:
        a = a.args[0] if a.op == 'T' else ar.transpose_axes(a, (1, 0))
    if P.op == 'T':
        P, turned = P.args[0], not turned
    return (a, P.args[0], P.args[1], turned) if P.op == 'matpow' else None


def chain(conf, col):
    k = Ctx(conf)
    x = k.x
    f = 'KMeansMarkovCROM.predict'
    new = fitted(k)
    if new is None or 'transition_matrix_' not in new:
        return col.unk('chain', f, 'no transition_matrix_')
    T = new['transition_matrix_']
    n = iatom('n_new', 1)
    x.fact(ge(n, const(12)))
    X = x.arr('new data', (n, k.sz['d']))
    h = iatom('horizon', 1) if conf.get('h') is None else s(conf['h'])
    r = x.call(k.o, 'predict', X, horizon=h)
    col.functions |= x.I.seen_functions
    if x.dead:
        return col.unk('chain', f, 'no path returns (see C22)')
    r = x.t(r)
    x.I.sync(x.st)
    if conf.get('h') is None:
        power = of_power(r)
        if power is not None:
            start, M, e, turned = power
            same = M is T or M.op == 'T' and M.args[0] is T
            turned ^= M.op == 'T' and M is not T
            if not same or not prove.prove_eq(e, h):
                wrong = same and proved_other(e, h)
                return (col.bad if wrong else col.unk)('chain', f, 'power %s of %s' % (tm.show(e)[:40], tm.show(M)[:60]))
            return col.decide(turned, 'chain', f + ': the power of the transition matrix' + ('' if turned else ' is not transposed'))
        if r.op != 'phi':
            return col.unk('chain', f, 'no loop over the steps')
        e, b = PHIINFO[r][:2]
        L = next((l for l in session_loops(x, set()) if r in l.phis), None)
        if L is None or L.n is None or L.breaks or L.guard is not None or not isinstance(b, Term):
            return col.unk('chain', f, 'the loop over the steps is not understood')
        col.decide(True if prove.prove_eq(L.n, h) else False if proved_other(L.n, h) else None, 'chain', f + ': steps', tm.show(L.n)[:60])
        nf.fresh()
        vector(col, 'chain', f + ': step', b, x.spec('chain', r, T, const(1)), (r,))
        start = e
    else:
        hh = conf['h']
        start = r
        m = 0
        while start.op == 'dot' and m < 9 and start.args[0].op in ('dot', 'phi', 'scatter', 'store', 'lam', 'stack', 'mul'):
            start = start.args[0]
            m += 1
        if hh and start is r:
            start = first(r)
        nf.fresh()
        if start is None or mentions(start, T):
            col.unk('chain', f, 'the start of the chain was not found')
            return
        x.I.sync(x.st)
        vector(col, 'chain', '%s (horizon %d)' % (f, hh), r, x.spec('chain', start, T, const(hh)))
    # membership
    K = k.K
    if K.op != 'const':
        return
    L = next((u for u in walk(start) if u.op == 'kmpredict'), None)
    if L is None:
        return col.unk('membership', f, 'no labels in the start')
    Kn = tm.cval(K)
    bv = iatom('a sample', 0)
    x.fact(ge(n, s_add(bv, const(1))))
    for j in range(int(Kn)):
        for m in range(int(Kn)):
            v = entry(start, bv, j, L, m)
            want = const(1 if m == j else 0)
            g = '%s: cluster %d' % (f, j)
            if prove.prove_eq(v, want):
                col.ok('membership', g, 'samples of cluster %d' % m)
            elif prove.prove_ne(v, want):
                col.bad('membership', g, 'a sample of cluster %d starts with %s' % (m, tm.show(v)[:60]))
            else:
                col.unk('membership', g, tm.show(v)[:120])


def entry(t, bv, j, L, m):
    """Entry (bv, j) of t when the label of sample bv is m."""
    if t.op == 'store' and len(t.args[1]) == 2:
        a, ((k1, *e1), (k2, *e2)), v = t.args
        if k1 == 'mask' and k2 == 'i' and e2[0].op == 'const':
            old = lambda: entry(a, bv, j, L, m)
            if tm.cval(e2[0]) != j:
                return old()
            c = decided(ar.index(e1[0], (('i', bv),)), bv, L, m)
            u = v if v.shape == () else constant_fill(v)
            if c is True and u is not None:
                return u
            if c is False:
                return old()
    l = ar.index(L, (('i', bv),))
    v = tm.subst(ar.index(t, (('i', bv), ('i', const(j)))), {l: const(m)})
    return tm.subst(v, {u: const(c) for u in walk(v) for c in (decided(u, bv, L, m),) if c is not None})


def decided(u, bv, L, m):
    """Truth of a comparison of the label of sample bv with a number, when the label is m."""
    l = ar.index(L, (('i', bv),))
    if u.op == 'index' and u.args[0].op == 'ew' and u.args[0].args[0] == 'eq' and L in u.args[0].args[1:]:
        c = next((constant_fill(q) for q in u.args[0].args[1:] if q is not L), None)
        return None if c is None else tm.cval(c) == m
    if u.op == 'eq0' and l in set(walk(u)):
        d = tm.subst(u.args[0], {l: const(m)})
        return tm.cval(d) == 0 if d.op == 'const' else None
    return None


def first(r):
    while r.op == 'dot':
        r = r.args[0]
    return r


def proved_other(a, b):
    d = s_sub(a, b)
    return d.op == 'const' and tm.cval(d) != 0


def counts(conf, col):
    k = Ctx(conf)
    x = k.x
    f = 'KMeansMarkovCROM.%s' % conf['meth']
    step(k, conf['meth'], 0, True)
    col.functions |= x.I.seen_functions
    if x.dead:
        return col.unk('counts', f, 'no path returns (see C22)')
    at = x.attrs(k.o)
    T = x.t(at['transition_matrix_']) if 'transition_matrix_' in at else None
    L = None
    if isinstance(T, Term):
        L = next((u for u in walk(T) if u.op == 'kmlabels'), None)
    if T is None or T.shape is None or len(T.shape) != 2:
        return col.unk('counts', f, 'no transition matrix')
    S_ = Sto(x, set())
    K = int(conf['K'])
    if L is None:
        if K == 1:
            v = ar.index(T, (('i', const(0)), ('i', const(0))))
            return col.decide(True if prove.prove_eq(v, const(1)) else None, 'counts', f + ': [0, 0]', 'one cluster')
        return col.unk('counts', f, 'no labels in the transition matrix')
    n = L.shape[0]
    for j in range(K):
        for c in range(K):
            v = ar.index(T, (('i', const(j)), ('i', const(c))))
            to = ar.index(ar.ew('eq', L, ar.full(L.shape, const(j))), (('s', const(1), n),))
            frm = ar.index(ar.ew('eq', L, ar.full(L.shape, const(c))), (('s', const(0), s_sub(n, const(1))),))
            njk = ar.reduce_sum(ar.mul(to, frm), None)
            nk = ar.reduce_sum(frm, None)
            g = '%s: moves from the column cluster to the row cluster' % f
            for fs, u in ways(v):
                S_.ctx = []
                if not any(a.op == 'sum' for a in walk(u)):
                    # no counts: the case of a cluster without successors (its columns are C02's)
                    empty = [q for q in fs if any(a.op in ('sum', 'count') for a in walk(q[0]))]
                    col.decide(True if empty else None, 'counts', f + ': clusters without successors', tm.show(u)[:80])
                    continue
                # u = n_jk / n_k, shown as u * n_k - n_jk + 1 = 1
                e = s_add(s_sub(s_mul(plain_counts(u), nk), njk), const(1))
                if S_.sums_to_one(fs, e):
                    col.ok('counts', g, 'entry %d, %d' % (j, c))
                elif S_.counts_only(u):
                    col.bad('counts', g, 'entry %d, %d is %s' % (j, c, tm.show(plain_counts(u))[:300]))
                else:
                    col.unk('counts', g, 'entry %d, %d: %s' % (j, c, tm.show(plain_counts(u))[:200]))


def main(tier):
    return run('C14', analyse, configs(tier), RULES,
               'Forecasts: predict is evaluated symbolically with arbitrary weights, matrices and lag weights on a grid of numbers '
               'of samples, lags and horizons, and every row compared in normal form with the recursion over lags; for any horizon '
               'by induction on the window carried by the loop. Fits: the objective of the Markov parameters in normal form. '
               'k-means: the chain by its loop, the counts entry by entry.',
               tier, need=('objective', 'forecast', 'now', 'chain', 'counts'),
               assumptions=['transform returns the current weights (C01, C10, C17)', 'k-means counts: up to three clusters'])
