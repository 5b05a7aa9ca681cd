"""C03: the reported cost is the objective at the returned factors."""
from ..scen import *
from ..loops import *
from ..report import run
from ..search import *
from .. import nf

RULES = {
    'objective': 'the cost kept by the main loop is the documented objective of the factors at that time',
    'reported': 'cost_ is that objective at the factors the model exposes, whichever way the loop was left',
}


def configs(tier):
    out = []
    for m in (KAA, AA, GPNH, CROM, MTD):
        out.append(C(m, init='random', K=K2, chain='fit_transform'))
        if m is not CROM:
            out.append(C(m, init='random', K=1, chain='fit_transform'))
        out.append(C(m, init='custom', K=K2, chain='fit_transform'))
        if tier == 'thorough':
            out.append(C(m, init='random', K=K2, mono=1, chain='fit_transform>fit_transform'))
            out.append(C(m, init='furthest_sum', K=K2, chain='fit_transform'))
    for m in (KAA, GPNH):
        out.append(C(m, init='random', K=2, chain='fit_transform'))
    out.append(C(KAA, init='random', K=K2, delta=1, chain='fit_transform'))
    out.append(C(AA, init='random', K=K2, kernel_func=1, chain='fit_transform'))
    for l in (1, 2) + ((3,) if tier == 'thorough' else ()):
        out.append(C(MTD, init='random', K=K2, lags=l, chain='fit_transform'))
    out.append(C(CROM, init='random', K=K2, lags=2, chain='fit_transform'))
    for tv in (0, 1):
        out.append(C(FKM, K=K2, tv=tv, chain='fit_transform'))
        for u, mem in ((0, 1), (1, 0), (1, (1, 2))):
            out.append(C(FVX, K=2, tv=tv, u=u, memory=mem, chain='fit_transform'))
    return out


def analyse(conf, col):
    k = Ctx(conf)
    x, y = k.x, k.y
    model = conf['model'].rsplit('.', 1)[1]
    for i, name in enumerate(conf['chain'].split('>')):
        since = set(LOOPS)
        r = step(k, name, i, i == 0)
        if x.dead:
            col.unk('objective', '%s.%s' % (model, name), 'no path returns (see C22)')
            return
        ml = main_loops(x, y['maxit'], since)
        at = x.attrs(k.o)
        if not ml or 'cost_' not in at:
            col.unk('objective', '%s.%s' % (model, name), 'no main loop or no cost_')
            return
        pens = (False, True) if model == 'MTDConvexCoding' and conf.get('K') == 1 else (True,)
        for pen in pens:
            n = len(col.obs)
            one(col, k, ml[0], since, x.t(r), x.t(at['cost_']), at, '%s.%s' % (model, name), pen)
            if pen is not pens[-1] and not all(o[3] == 'proved' for o in col.obs[n:]):
                del col.obs[n:]
            else:
                break
    col.functions |= x.I.seen_functions


def spec(k, W, at, brk, v, penalty, back={}):
    """The documented objective at weights W and the exposed attributes, on the given exit.

    With a single component the weights, lag weights and transition matrices are all one (C01, C02), so that the
    penalty on the weights vanishes: it may be left out."""
    x = k.x

    def A(n):
        return tm.subst(cof(x.t(at[n]), brk, v), back)
    m = k.model
    X = x.t(k.X)
    if m == KAA:
        return x.spec('kernel_cost', X, W, A('dictionary_'))
    if m == AA:
        if k.conf.get('kernel_func'):
            return x.spec('kernel_cost', A('K'), W, A('dictionary_'))
        return x.spec('kernel_cost', ar.dot(X, ar.T(X)), W, A('dictionary_'))
    if m in (GPNH, CROM, MTD):
        D = A('dictionary_')
        t = x.spec('reconstruction', X, W, D)
        K = D.shape[0]
        if not prove.prove_eq(K, const(1)):
            t = s_add(t, s_mul(k.kw['epsilon_states'], x.spec('states', D, K)))
        if m == MTD and not (prove.prove_eq(K, const(1)) and not penalty):
            lags = k.lags or [const(1)]
            ml = lags[0] if len(lags) == 1 else ar.smax(lags)
            t = s_add(t, s_mul(k.kw['epsilon_weights'], x.spec('weights_penalty', W, lags, A('order_weights'),
                                                               A('transition_matrices'), ml)))
        return t
    if m == FKM:
        T = A('Theta')
        return x.spec('affiliation_cost', W, x.spec('kmeans_distances', X, T))
    if m == FVX:
        pl = max(k.memory)
        parts = []
        U = x.t(k.fkw['external_factors']) if 'external_factors' in k.fkw else None
        for i, p in enumerate(k.memory):
            c = {q: x.spec('component', A(q), const(i)) if isinstance(A(q), Term) and A(q).shape else const(None)
                 for q in ('mu', 'A', 'B0')}
            pred = x.spec('varx_prediction', X, const(pl), c['mu'], c['A'], const(p), const(None) if U is None else U, c['B0'],
                          const(None), const(0))
            parts.append(x.spec('square_norms', ar.sub(x.spec('from_row', X, const(pl)), pred)))
        return x.spec('affiliation_cost', W, ar.T(ar.stack(parts)))
    return None


def one(col, k, L, since, W, cost, at, f, pen):
    x = k.x
    w = '%s:%s' % (L.file, getattr(L.node, 'lineno', 0))
    cl = HeadClosure(x, since)
    H = cl.close(cof(cost, L.brk, False))
    Wf = cl.close(cof(W, L.brk, False))
    s = spec(k, Wf, at, L.brk, False, pen)
    if s is None:
        col.unk('objective', f, 'no reference formula', w)
        return
    s = cl.close(s)
    x.I.sync(x.st)
    if any(p.op == 'phi' and p not in free(H) and PHIINFO[p][1] is not p for p in free(s) if p in L.phis):
        # exposed values of which the cost is no function: compare them at the end of an iteration instead
        back = back_map(L)
        H, Wf = cl.close(tm.subst(cof(cost, L.brk, False), back)), cl.close(tm.subst(cof(W, L.brk, False), back))
        s = cl.close(spec(k, Wf, at, L.brk, False, pen, back))
        x.I.sync(x.st)
    if same(H, s):
        col.ok('objective', f, 'identical to the reference', w)
    else:
        try:
            for mx, facts in orders(k, H, s):
                by_orders(k, facts, lambda base: differ(col, f, tm.subst(H, mx), tm.subst(s, mx), w))
        except nf.Hard as e:
            col.unk('objective', f, 'not in normal form: %s' % e, w)
    x.I.sync(x.st)
    Ht, Wt = cl.close(cof(cost, L.brk, True)), cl.close(cof(W, L.brk, True))
    st = spec(k, Wt, at, L.brk, True, pen)
    x.I.sync(x.st)
    if st is None:
        col.unk('reported', f, 'no reference formula', w)
        return
    st = cl.close(st)
    if same(Ht, st):
        col.ok('reported', f, 'identical to the reference at the exposed factors', w)
        return
    # the step from the head to the exit: factor -> value at the exit
    fac = {}
    for a, v in at.items():
        v = x.t(v)
        h = cof(v, L.brk, False) if isinstance(v, Term) else None
        if h is not None and h.op == 'phi' and h in free(s):
            fac[h] = cl.close(cof(v, L.brk, True))
    a, b = tm.subst(H, fac), tm.subst(s, fac)
    if same(Ht, a) and same(st, b):
        col.ok('reported', f, 'the objective of the loop at the exposed factors', w)
        return
    try:
        for case in cases(Ht, st, L):
            for mx, facts in orders(k, Ht, st):
                by_orders(k, facts, lambda base: differ(col, f, tm.subst(Ht, case | mx), tm.subst(st, case | mx), w, 'reported'))
    except nf.Hard as e:
        col.unk('reported', f, 'not in normal form: %s' % e, w)
    finally:
        x.I.sync(x.st)


def cases(a, b, L):
    fl = []
    for t in (a, b):
        fl += [c for c in flags(t) if c not in fl and c is not L.brk]
    out = [{}]
    for c in fl[:3]:
        out = [m | {c: v} for m in out for v in (TRUE, FALSE)]
    return out


def differ(col, f, a, b, w, rule='objective'):
    A, B = nf.scalar(a), nf.scalar(b)
    d = nf.sdiff(A, B)
    tr = transparent(A, True) and transparent(B, True)
    col.decide(True if not d else (False if tr else None), rule, f,
               'equal normal forms (%d terms)' % len(B) if not d else 'the cost differs from the objective in %d terms: %s' % (
                   len(d), nf.show(d)[:160]), w)


def main(tier):
    return run('C03', analyse, configs(tier), RULES,
               'The cost_ of the returned model is closed over the factors by induction on the main loop and compared, in '
               'normal form, with a reference formula of the documented objective at the exposed factors.',
               tier, need=('objective', 'reported'))
