"""C01: weights lie on the probability simplex."""
from ..scen import *
from ..loops import *
from ..report import run, Collector
from ..stoch import Sto
from . import c15

RULES = {
    'weights': 'weights returned by fit_transform and transform are non-negative with rows that sum to one, for every number of iterations',
    'kept': 'so are the weights a model holds after fit, by which later calls start',
    'constraints': 'the program solved for FEM-BV weights bounds every weight from below by zero and makes every row sum to one',
}


def inputs():
    return [a for a in tm._TABLE.values() if a.op == "atom" and a.shape and str(a.args[0]).rstrip("'") in
            ('X', 'Kern', 'W0', 'D0', 'L0', 'T0', 'P0', 'U', 'mu0', 'A0', 'B00')]


def judge(col, S_, rule, f, t, ax, text):
    ok, why = S_.stochastic(t, ax)
    col.decide(ok, rule, f, text if ok else why)


def configs(tier):
    out = []
    for c in basic(tier):
        if c['model'] in (PWV, KMC):
            continue
        c = Conf(c)
        c['chain'] = 'fit_transform>transform'
        out.append(c)
    for m in (KAA, AA, GPNH, CROM, MTD):
        out.append(C(m, init='random', K='none', chain='fit_transform>transform'))
        out.append(C(m, init='furthest_sum', K=K2, dtype='i', chain='fit_transform'))
        out.append(C(m, init='random', K=K2, mono=0, chain='fit>transform'))
        out.append(C(m, init=None, K=K2, chain='fit_transform'))
    for m in (KAA, AA, GPNH):
        out.append(C(m, init='random', K=1, chain='fit_transform>transform'))
        out.append(C(m, init='random', K=2, chain='fit_transform'))
    out.append(C(KAA, init='random', K=K2, sig=1, chain='fit_transform'))
    out.append(C(FVX, K=2, tv=0, u=0, memory=None, chain='fit_transform>transform'))
    out.append(C(FVX, K=1, tv=1, u=0, memory=1, chain='fit_transform'))
    out.append(C(FKM, K=K2, tv=1, mono=0, chain='fit>transform'))
    for c in c15.configs(tier)[:6 if tier != 'thorough' else None]:
        c = Conf(c)
        c['lp'] = 1
        out.append(c)
    return out


def analyse(conf, col):
    if conf.get('lp'):
        sub = Collector(conf.name)
        c15.analyse(conf, sub)
        for o in sub.obs:
            if o[1] in ('row-sum', 'non-negative', 'layout', 'stated'):
                col.obs.append((o[0], 'constraints') + tuple(o[2:]))
        col.functions |= sub.functions
        return
    c = Conf(conf)
    if conf.get('sig'):
        from .c05 import prepare
        k = prepare(conf)
    else:
        k = Ctx(c)
    x = k.x
    model = conf['model'].rsplit('.', 1)[1]
    for i, name in enumerate(conf['chain'].split('>')):
        r = step(k, name, i, i == 0)
        if x.dead:
            col.unk('weights', '%s.%s' % (model, name), 'no path returns (see C22)')
            return
        t = x.t(r) if r is not None else None
        S_ = Sto(x, inputs())
        if name in ('fit_transform', 'transform'):
            if not isinstance(t, Term) or t.shape is None or len(t.shape) != 2:
                col.unk('weights', '%s.%s' % (model, name), 'no matrix is returned')
                return
            judge(col, S_, 'weights', '%s.%s' % (model, name), t, 1, 'rows on the simplex')
    col.functions |= x.I.seen_functions


def main(tier):
    return run('C01', analyse, configs(tier), RULES,
               'Induction over the values of the analysed calls: a loop value is assumed to be on the simplex at the head of its loop '
               'and shown to be so at the entry and on the back edge; convex combinations (with the range of the step found by '
               'induction over the line search), row-wise projections, normalised random numbers, unit vectors, validated factors of '
               'the caller and solutions of the stated linear program are the sources.  The constraints of the program are read for '
               'concrete sizes.', tier, need=('weights', 'constraints'),
               assumptions=['the sum of random numbers that are normalised is not zero',
                            'simplex_project_vector returns a vector on the simplex (see C24)',
                            'a solution of the linear program satisfies its constraints up to solver accuracy'])
