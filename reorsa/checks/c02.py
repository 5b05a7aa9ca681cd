"""C02: archetypes, transition matrices and lag weights stay stochastic."""
from ..scen import *
from ..loops import *
from ..report import run
from ..stoch import Sto, Stop
from .c01 import inputs, judge

RULES = {
    'dictionary': 'the dictionary of (kernel) archetypal analysis has non-negative rows that sum to one',
    'lag-weights': 'lag weights are non-negative and sum to one',
    'transitions': 'transition matrices are non-negative with columns that sum to one',
    'forecast': 'membership probabilities stay on the simplex at every step of a forecast',
}


def configs(tier):
    out = []
    for m in (KAA, AA):
        for init in ('random', 'furthest_sum', 'custom', None):
            out.append(C(m, init=init, K=K2, chain='fit>transform'))
        out.append(C(m, init='random', K=K2, delta=1, chain='fit'))
        out.append(C(m, init='furthest_sum', K=K2, delta=1, chain='fit'))
        out.append(C(m, init='furthest_sum', K=K2, dtype='i', chain='fit'))
        out.append(C(m, init='random', K='none', chain='fit'))
        out.append(C(m, init='random', K=K2, mono=0, chain='fit'))
        for K in (1, 2):
            out.append(C(m, init='random', K=K, chain='fit'))
            out.append(C(m, init='furthest_sum', K=K, chain='fit'))
    out.append(C(KAA, init='random', K=K2, sig=1, chain='fit'))
    out.append(C(AA, init='furthest_sum', K=K2, exclude=1, kernel_func=1, chain='fit'))
    for m in (MTD, CROM):
        for lags in (None, 1, 2) + ((3,) if tier == 'thorough' else ()):
            out.append(C(m, init='random', K=K2, lags=lags, chain='fit>transform>predict' if lags in (1, 2) else 'fit'))
        out.append(C(m, init='custom', K=K2, lags=2, chain='fit'))
        out.append(C(m, init='random', K=1, lags=2, chain='fit'))
        out.append(C(m, init='furthest_sum', K=K2, lags=2, mono=0, chain='fit'))
    for K in (1, 2, 3):
        out.append(C(KMC, K=K, chain='fit'))
    out.append(C(KMC, K=2, dtype='i', chain='fit_transform'))
    out.append(C(KMC, chain='fit>predict'))
    out.append(C(KMC, chain='fit_predict>predict0'))
    return out


def analyse(conf, col):
    if conf.get('sig'):
        from .c05 import prepare
        k = prepare(conf)
    else:
        k = Ctx(conf)
    x, m = k.x, conf['model']
    model = m.rsplit('.', 1)[1]
    for i, name in enumerate(conf['chain'].split('>')):
        since = set(LOOPS)
        r = step(k, name, i, i == 0)
        if x.dead:
            col.unk('dictionary', '%s.%s' % (model, name), 'no path returns (see C22)')
            return
        S_ = Sto(x, inputs())
        at = x.attrs(k.o)
        f = '%s.%s' % (model, name)
        fit = name in ('fit', 'fit_transform', 'fit_predict')
        wants = []
        if m in (KAA, AA) and (fit or name == 'transform'):
            wants.append(('dictionary', 'dictionary_', 1))
        if m in (MTD, CROM) and (fit or name == 'transform'):
            wants += [('lag-weights', 'order_weights', 0), ('transitions', 'transition_matrices', 1)]
        if m == KMC and fit and conf.get('K') is not None:
            wants.append(('transitions', 'transition_matrix_', 0))
        for rule, a, ax in wants:
            if a not in at:
                col.unk(rule, f, 'no attribute %s' % a)
                continue
            t = x.t(at[a])
            if not isinstance(t, Term) or t.shape is None:
                col.unk(rule, f, '%s is not known' % a)
                continue
            judge(col, S_, rule, '%s: %s' % (f, a), t, ax, 'on the simplex')
        if name in ('predict', 'predict0'):
            if m == KMC:
                T_ = x.t(at['transition_matrix_'])
                S_.lemma(T_, 0)                            # shown for one, two and three clusters
                judge(col, S_, 'forecast', f, x.t(r), 1, 'rows on the simplex, for every horizon')
            else:
                recursion(col, k, S_, f, since)
    col.functions |= x.I.seen_functions


def recursion(col, k, S_, f, since):
    """Memberships that a loop over the forecast steps carries: rows on the simplex."""
    x = k.x
    hz = [a for a in tm._TABLE.values() if a.op == 'atom' and str(a.args[0]).startswith('horizon')]
    n = 0
    for L in session_loops(x, since):
        if L.n is None or not any(mentions(L.n, h) for h in hz):
            continue
        for p in L.phis:
            if p.shape is None or len(p.shape) != 2 or not prove_dim(p.shape[1], k.K):
                continue
            n += 1
            judge(col, S_, 'forecast', f, p, 1, 'memberships of every forecast step are on the simplex')
    if not n:
        col.unk('forecast', f, 'no loop over the forecast steps found')


def prove_dim(a, b):
    return ar.dim_eq(a, b)


def main(tier):
    return run('C02', analyse, configs(tier), RULES,
               'The induction of C01 for the dictionary of archetypal analysis, the lag weights and transition matrices of the '
               'lag-weighted models, and the memberships carried by forecasts.  The transition counts of k-means are summed entry by '
               'entry for one to three clusters, with the labels as a partition of the samples.', tier,
               need=('dictionary', 'lag-weights', 'transitions', 'forecast'),
               assumptions=['the sum of random numbers that are normalised is not zero',
                            'simplex_project_vector returns a vector on the simplex (see C24)',
                            'k-means transition counts: up to three clusters'])
