"""C12: shapes fit together in every call, and results have the documented shapes."""
from ..scen import *
from ..report import run
from .. import prove

RULES = {
    'fit': 'operands of an array operation have compatible shapes, indices and slices stay inside their axis',
    'result': 'a returned or learned array has the documented shape',
}

FREE = ('n_samples', 'n_features', 'K', 'lag', 'n_u', 'n_rows', 'horizon')


def free_term(t):
    """Does t depend on input sizes only?"""
    return all(a.op == 'atom' and str(a.args[0]).rstrip("'0123456789") in FREE for a in leaves(t))


def leaves(t, seen=None):
    out = []
    st, seen = [t], set()
    while st:
        u = st.pop()
        if not isinstance(u, Term) or id(u) in seen:
            continue
        seen.add(id(u))
        if u.op in ('atom', 'bound', 'phi'):
            out.append(u)
        for a in tm.children(u):
            st.append(a)
    return out


def differs(sa, sb):
    """Are two shapes different for some admissible sizes? True, or None when not known."""
    if len(sa) != len(sb):
        return True
    for a, b in zip(sa, sb):
        if not ar.dim_eq(a, b) and free_term(a) and free_term(b):
            return True
    return None


def shapes(x):
    return [x] if isinstance(x, Term) else list(x) if isinstance(x, (tuple, list)) else []


def analyse(conf, col):
    k = Ctx(conf)
    x = k.x
    model = conf['model'].rsplit('.', 1)[1]
    for i, name in enumerate(conf['chain'].split('>')):
        m = x.mark()
        r = step(k, name, i, i == 0)
        nbad = 0
        for e in x.new_events(m):
            if e.kind in ('shape', 'indexerror'):
                nbad += 1
                a, b = e.data.get('a'), e.data.get('b')
                kind = e.data.get('issue') or e.data.get('what') or ''
                dec = None
                if kind in ('broadcast', 'assign', 'in-place', 'out'):
                    try:
                        la, lb = list(a), list(b)
                        while len(la) < len(lb):
                            la.insert(0, const(1))
                        while len(lb) < len(la):
                            lb.insert(0, const(1))
                        bad = [(p, q) for p, q in zip(la, lb) if p is not q and not ar.is_one(p) and not ar.is_one(q)
                               and not ar.dim_eq(p, q)]
                        dec = False if any(free_term(p) and free_term(q) for p, q in bad) else None
                    except TypeError:
                        pass
                elif e.kind == 'indexerror' or kind in ('too many indices', 'trace', 'axis', 'inv'):
                    dec = False
                else:
                    try:
                        dec = False if all(free_term(p) for p in shapes(a) + shapes(b)) else None
                    except TypeError:
                        pass
                col.decide(dec, 'fit', '%s: %s' % (e.func, e.text[:160]), '%s: %s against %s in step %s of %s' % (
                    kind, a, b, name, conf['chain']), e.where())
        if x.dead:
            col.unk('fit', '%s.%s' % (model, name), 'no path returns (see C22)')
            return
        if not nbad:
            col.ok('fit', '%s.%s' % (model, name), '%d array operations' % sum(1 for _ in x.new_events(m)))
        for what, t, want in expected(k, name, r):
            if t is None or t.shape is None:
                col.unk('result', '%s.%s: %s' % (model, name, what), 'shape not known: %s' % (t,))
            elif len(t.shape) == len(want) and all(ar.dim_eq(p, q) for p, q in zip(t.shape, want)):
                col.ok('result', '%s.%s: %s' % (model, name, what), str(want))
            else:
                col.decide(False if differs(t.shape, want) else None, 'result', '%s.%s: %s' % (model, name, what),
                           'has shape %s instead of %s' % (t.shape, want))
    col.functions |= x.I.seen_functions
    col.count('calls_into_package', x.I.user_calls)
    col.count('calls_into_libraries', x.I.ext_calls)


def expected(k, name, r):
    """(what, term, documented shape) after a public call."""
    x, m, K = k.x, k.model, k.K
    out = []
    n, d = k.sz['n'], k.sz['d']
    at = x.attrs(k.o)

    def attr(a, want):
        if a not in at:
            out.append((a, None, want))
        else:
            out.append((a, x.t(at[a]), want))
    new = [t.shape[0] for t in [x.t(k.last)]] if getattr(k, 'last', None) is not None else [n]
    rows = new[0]
    fit = name in ('fit', 'fit_transform', 'fit_predict')
    if m in (KAA, AA, GPNH, CROM, MTD):
        if name == 'fit_transform':
            out.append(('weights', x.t(r), (n, K)))
        if name == 'transform':
            out.append(('weights', x.t(r), (rows, K)))
        if fit:
            attr('dictionary_', (K, n) if m in (KAA, AA) else (K, d))
            attr('cost_', ())
            attr('n_iter_', ())
        if name == 'inverse_transform':
            wr = x.t(k.last).shape[0]
            out.append(('reconstruction', x.t(r), (wr, n if m in (KAA, AA) else d)))
        if name in ('predict', 'predict0'):
            out.append(('forecast', x.t(r), (rows, d)))
        if m in (CROM, MTD) and fit:
            nl = const(len(k.lags) or 1)
            attr('order_weights', (nl,))
            attr('transition_matrices', (nl, K, K))
    elif m in (FKM, FVX):
        mm = max(k.memory) if m == FVX else 0
        w = (s_sub(n if name != 'transform' else rows, const(mm)), K)
        if name in ('fit_transform', 'transform'):
            out.append(('weights', x.t(r), w))
        if m == FKM and fit:
            attr('Theta', (K, d))
        if m == FVX and fit:
            attr('mu', (K, d))
            if mm:
                attr('A', (K, const(mm), d, d))
            if k.conf.get('u'):
                attr('B0', (K, d, k.U.shape[1]))
    elif m == PWV:
        p, s_ = k.conf.get('p', 1), k.conf.get('s', 0)
        pre = max(p, s_)
        if fit:
            if k.conf.get('trend', 1):
                attr('mu', (K, d))
            if p:
                attr('A', (K, const(p), d, d))
            if k.conf.get('u') and s_:
                attr('B', (K, const(s_), d, k.U.shape[1]))
            attr('Sigma_u', (K, d, d))
            attr('cluster_labels_', (s_sub(n, const(pre)),))
            attr('residuals', (s_sub(n, const(pre)), d))
        if name in ('fit_transform', 'transform'):
            out.append(('labels', x.t(r), (s_sub(n if fit else rows, const(pre)),)))
    else:
        if fit:
            attr('cluster_centers_', (K, d))
            attr('labels_', (n,))
            attr('transition_matrix_', (K, K))
        if name == 'fit_predict':
            out.append(('labels', x.t(r), (n,)))
        if name in ('fit_transform', 'transform'):
            out.append(('distances', x.t(r), (n if fit else rows, K)))
        if name in ('predict', 'predict0'):
            out.append(('probabilities', x.t(r), (rows, K)))
    return out


def configs(tier):
    return chained(all_models(tier), tier)


def main(tier):
    return run('C12', analyse, configs(tier), RULES,
               'Shape inference with symbolic dimensions over sequences of public calls: sizes are symbols (number of '
               'samples, features, components, lags, horizon), dimensions are compared as polynomials; every array '
               'operation, index, slice and store is an obligation.', tier, need=('fit', 'result'))
