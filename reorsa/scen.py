"""Scenarios: which public calls are analysed, in which configurations.

A configuration is a small dict; ``build`` opens a session, builds the model symbolically and returns a context whose
``fit``/``fit_transform``/... make the calls.  Sizes, data, seeds, tolerances, limits and weights are symbolic; what is
enumerated is the choice of options (init, kernel relaxation, number of lags, orders, presence of a TV bound, ...)."""
from .harness import *

K2 = 'K>=2'


class Conf(dict):
    @property
    def name(self):
        short = self['model'].rsplit('.', 1)[1]
        return short + '[' + ', '.join('%s=%s' % (k, v) for k, v in self.items() if k != 'model') + ']'

    def __hash__(self):
        return hash(self.name)


def C(model, **kw):
    c = Conf(model=model)
    c.update(kw)
    return c


def sizes(tag=''):
    return dict(n=iatom('n_samples' + tag, 1), d=iatom('n_features' + tag, 1))


class Ctx:
    """A model built in a session."""

    def __init__(self, conf, options=None, verbose=None):
        self.conf = conf
        c = conf
        x = self.x = S(options=options)
        y = sym()
        self.y = y
        k = c.get('K', K2)
        self.K = y['K'] if k == K2 else const(None) if k == 'none' else const(int(k))
        self.model = c['model']
        self.opts = {}
        kw = dict(random_state=y['seed'], max_iterations=y['maxit'], tolerance=y['tol'],
                  verbose=y['verb'] if verbose is None else verbose)
        m = self.model
        if m == KMC:
            kw = dict(random_state=y['seed'])
        if m == PWV:
            kw = dict(random_state=y['seed'])
            if c.get('verb'):
                kw['verbose'] = y['verb'] if verbose is None else verbose
            if c.get('full_opts'):
                kw.update(max_iterations=y['maxit'], tolerance=y['tol'])
        if c.get('defaults'):
            kw = dict(random_state=y['seed'])
        init = c.get('init', 'random')
        if m not in (PWV, KMC) and init != 'default':
            kw['init'] = s(init)
        if c.get('mono') is not None and m not in (PWV, KMC):
            kw['require_monotonic_cost_decrease'] = s(bool(c['mono']))
        if c.get('mem'):
            kw['line_search_memory'] = s(c['mem'])
        if m in (KAA, AA) and c.get('delta'):
            kw['delta'] = fatom('delta')
            x.fact(ar.gt0(kw['delta']))
            self.delta = kw['delta']
        if m == AA and c.get('kernel_func'):
            kw['kernel_func'] = atom('kernel_func', None, kind='callable')
        if m in (GPNH, CROM, MTD):
            kw['epsilon_states'] = fatom('epsilon_states', 0)
        if m == MTD:
            kw['epsilon_weights'] = fatom('epsilon_weights', 0)
        self.lags = []
        if m in (MTD, CROM) and c.get('lags'):
            self.lags = [iatom('lag%d' % (i + 1), 1) for i in range(c['lags'])]
            kw['lags'] = x.lst(self.lags, name='lags')
        if m == CROM and c.get('order'):
            kw['order'] = s(c['order'])
        if m in (FKM, FVX):
            kw['max_tv_norm'] = fatom('max_tv_norm', 0) if c.get('tv') else s(None)
            if c.get('wkw'):
                kw['weights_solver_kwargs'] = self.wkw = I_dict(x, {'solver': s('ECOS')}, 'weights_solver_kwargs')
        if m == FVX:
            mem = c.get('memory')
            if mem is not None:
                kw['memory'] = s(mem) if isinstance(mem, int) else x.lst([s(v) for v in mem], kind='list', name='memory')
                self.memory = [mem] * int(k) if isinstance(mem, int) else list(mem)
            else:
                self.memory = [0] * (1 if k == 'none' else int(k))
        if m == PWV:
            kw['p'] = s(c.get('p', 1))
            kw['s'] = s(c.get('s', 0))
            if 'trend' in c:
                kw['include_trend'] = s(bool(c['trend']))
        kw.update(c.get('extra') or {})
        self.kw = kw
        args = [self.K]
        self.o = x.make(m, *args, **kw)

    # -------------------------------------------------------------- data

    def data(self, tag=''):
        """Fresh symbolic data for a fit: (positional args, keywords, sizes)."""
        c, x, m = self.conf, self.x, self.model
        z = sizes(tag)
        n, d = z['n'], z['d']
        if c.get('K') == 'none':
            self.K = n if m in (KAA, AA) else d
            x.fact(ge(self.K, const(2)))
        if not (c.get('K') == 'none' and m in (KAA, AA)):
            x.fact(ge(n, s_add(self.K, const(1))))
        x.fact(ge(n, const(12)))
        for l in self.lags:
            x.fact(ge(n, s_add(l, const(2))))
        kw = {}
        if m == KAA:
            X = x.arr('Kern' + tag, (n, n), symmetric=True, dtype=c.get('dtype', 'f'))
        else:
            X = x.arr('X' + tag, (n,) if c.get('one') else (n, d), dtype=c.get('dtype', 'f'))
        if c.get('init') == 'custom':
            if m in (KAA, AA):
                kw['dictionary'] = x.arr('D0' + tag, (self.K, n))
                kw['weights'] = x.arr('W0' + tag, (n, self.K))
            elif m in (GPNH, CROM, MTD):
                kw['dictionary'] = x.arr('D0' + tag, (self.K, d))
                kw['weights'] = x.arr('W0' + tag, (n, self.K))
                if m == MTD:
                    nl = len(self.lags) or 1
                    kw['order_weights'] = x.arr('L0' + tag, (const(nl),))
                    kw['transition_matrices'] = x.arr('T0' + tag, (const(nl), self.K, self.K))
            elif m == FKM:
                kw['weights'] = x.arr('W0' + tag, (n, self.K))
                kw['parameters'] = self.x.arr('P0' + tag, (self.K, d))
            elif m == FVX:
                kw['weights'] = x.arr('W0' + tag, (s_sub(n, const(max(self.memory))), self.K))
                pd = dict(mu=x.arr('mu0' + tag, (self.K, d)), A=s(None), B0=s(None))
                if max(self.memory):
                    pd['A'] = x.arr('A0' + tag, (self.K, const(max(self.memory)), d, d))
                if c.get('u'):
                    pd['B0'] = x.arr('B00' + tag, (self.K, d, iatom('n_u' + tag, 1)))
                kw['parameters'] = I_dict(x, pd, 'parameters')
        if c.get('u'):
            u = x.arr('U' + tag, (n, iatom('n_u' + tag, 1)))
            kw['external_factors' if m == FVX else 'exog'] = u
        if c.get('initkw'):
            kw.update(start_index=iatom('start_index', 0), n_extra_steps=iatom('n_extra', 0))
        if c.get('exclude'):
            kw.update(exclude=x.lst([s(1)], name='exclude'))
        self.sz = z
        return X, kw, z

    def fit(self, X, kw, meth='fit_transform'):
        return self.x.call(self.o, meth, X, **kw)

    def at(self, name):
        return self.x.at(self.o, name)

    def attrs(self):
        return {k: v for k, v in self.x.attrs(self.o).items()}


def I_dict(x, d, name=None):
    from .values import Dct
    return x.I.alloc(x.st, Dct(dict(d), name, False), 'd')


# ------------------------------------------------------------------- lists of configurations

def factorisations(tier='quick', custom=True, models=None):
    out = []
    for K in (K2, 1):
        for init in ('random', 'furthest_sum'):
            for m in (KAA, AA):
                for delta in (0, 1):
                    out.append(C(m, init=init, K=K, delta=delta))
            out.append(C(GPNH, init=init, K=K))
            out.append(C(CROM, init=init, K=K))
            out.append(C(MTD, init=init, K=K))
    for m in (KAA, AA, GPNH, CROM, MTD):
        out.append(C(m, init=None, K=K2))
        if custom:
            out.append(C(m, init='custom', K=K2))
        out.append(C(m, init='random', K=K2, mono=0))
        out.append(C(m, init='random', K='none'))
    out.append(C(AA, init='random', K=K2, kernel_func=1))
    for m in (KAA, AA, GPNH, CROM, MTD):
        out.append(C(m, init='furthest_sum', K=K2, dtype='i'))
        out.append(C(m, init='furthest_sum', K=K2, initkw=1))
    out.append(C(GPNH, init='random', K=K2, dtype='i'))
    out.append(C(CROM, init='random', K=K2, lags=2))
    for l in (1, 2) + ((3,) if tier == 'thorough' else ()):
        out.append(C(MTD, init='random', K=K2, lags=l))
    out.append(C(MTD, init='furthest_sum', K=K2, lags=2))
    out.append(C(MTD, init='random', K=1, lags=2))
    if custom:
        out.append(C(MTD, init='custom', K=K2, lags=2))
    if tier == 'thorough':
        for m in (KAA, GPNH, MTD):
            out.append(C(m, init='random', K=K2, mem=2))
    return [c for c in out if models is None or c['model'] in models]


def fembvs(tier='quick'):
    out = []
    for K in (K2, 1):
        for tv in (0, 1):
            out.append(C(FKM, K=K, tv=tv))
    out.append(C(FKM, K=K2, tv=1, mono=0))
    out.append(C(FKM, K='none', tv=1))
    out.append(C(FKM, K=K2, tv=0, init='custom'))
    for tv in (0, 1):
        for u in (0, 1):
            for mem in (None, 1, 2, (0, 1), (2, 1)):
                out.append(C(FVX, K=2, tv=tv, u=u, memory=mem))
    out.append(C(FVX, K=2, tv=1, u=0, memory=(3, 2)))
    out.append(C(FKM, K=K2, tv=1, dtype='i'))
    out.append(C(FVX, K=2, tv=1, u=0, memory=1, dtype='i'))
    out.append(C(FVX, K=2, tv=1, u=0, memory=(2, 1), init='custom'))
    out.append(C(FVX, K=2, tv=0, u=1, memory=1, init='custom'))
    out.append(C(FVX, K=1, tv=1, u=0, memory=1))
    out.append(C(FVX, K=2, tv=1, u=0, memory=1, mono=0))
    if tier == 'thorough':
        out.append(C(FVX, K=3, tv=1, u=1, memory=(1, 0, 3)))
        out.append(C(FVX, K=3, tv=0, u=0, memory=2))
    return out


def others(tier='quick'):
    out = []
    for p in (0, 1, 2) + ((3,) if tier == 'thorough' else ()):
        for u, s_ in ((0, 0), (1, 0), (1, 1)) + (((1, 2),) if tier == 'thorough' else ()):
            for trend in (0, 1):
                out.append(C(PWV, p=p, u=u, s=s_, trend=trend))
    out.append(C(PWV, p=1, u=0, s=0, K=1))
    out.append(C(PWV, p=1, u=1, s=1, dtype='i'))
    out.append(C(KMC, dtype='i'))
    out.append(C(PWV, p=1, u=1, s=1, full_opts=1, verb=1))
    out.append(C(KMC))
    out.append(C(KMC, K=1))
    return out


def all_models(tier='quick'):
    return factorisations(tier) + fembvs(tier) + others(tier)


# ------------------------------------------------------------------- sequences of public calls

def chains(conf, tier='quick'):
    """Sequences of public methods to analyse for a configuration; the first call is on a fresh object."""
    m = conf['model']
    if m in (KAA, AA, GPNH):
        out = [('fit_transform', 'inverse_transform', 'transform', 'inverse_transform', 'fit'), ('fit', 'transform')]
    elif m in (CROM, MTD):
        out = [('fit_transform', 'inverse_transform', 'transform', 'predict'), ('fit', 'predict', 'transform')]
        if m == CROM or tier == 'thorough':
            out.append(('fit', 'fit_transform', 'predict0'))
    elif m in (FKM, FVX):
        out = [('fit_transform', 'transform', 'fit'), ('fit', 'transform')]
    elif m == PWV:
        out = [('fit_transform', 'transform', 'fit'), ('fit', 'transform')]
    else:
        out = [('fit', 'predict', 'transform'), ('fit_transform', 'predict0'), ('fit_predict', 'transform'),
               ('fit', 'fit_predict', 'predict'), ('fit', 'fit_transform', 'predict')]
    return out


def chained(confs, tier='quick'):
    out = []
    for c in confs:
        for ch in chains(c, tier):
            c2 = Conf(c)
            c2['chain'] = '>'.join(ch)
            out.append(c2)
    return out


def newdata(k, tag):
    """Data for an application of the fitted model: other samples, the same features."""
    x, m, c = k.x, k.model, k.conf
    if m == KAA:
        return x.arr('Kern' + tag, (k.sz['n'], k.sz['n']), symmetric=True, dtype=c.get('dtype', 'f')), {}
    n = k.sz['n'] if m in (AA,) else iatom('n_samples' + tag, 1)
    if not (c.get('K') == 'none' and m in (KAA, AA)):
        x.fact(ge(n, s_add(k.K, const(1))))
    x.fact(ge(n, const(12)))
    for l in k.lags:
        x.fact(ge(n, s_add(l, const(2))))
    kw = {}
    if c.get('u') and m in (PWV, FVX):
        kw['exog' if m == PWV else 'external_factors'] = x.arr('U' + tag, (n, k.U.shape[1]), dtype=c.get('dtype', 'f'))
    return x.arr('X' + tag, (n, k.sz['d']), dtype=c.get('dtype', 'f')), kw


def step(k, name, i, first):
    """Make one public call; returns its value."""
    x = k.x
    tag = '' if i == 0 else "'" * i
    if name in ('fit', 'fit_transform', 'fit_predict'):
        X, kw, z = k.data(tag)
        k.X, k.fkw = X, kw
        u = kw.get('exog') or kw.get('external_factors')
        if u is not None:
            k.U = x.t(u)
        return k.fit(X, kw, name)
    if name == 'transform':
        X, kw = newdata(k, tag)
        k.last = X
        return x.call(k.o, 'transform', X, **kw)
    if name == 'inverse_transform':
        n = iatom('n_rows' + tag, 1)
        k.last = x.arr('W' + tag, (n, k.K))
        return x.call(k.o, 'inverse_transform', k.last)
    if name in ('predict', 'predict0'):
        X, kw = newdata(k, tag)
        k.last = X
        h = const(0) if name == 'predict0' else iatom('horizon', 0)
        return x.call(k.o, 'predict', X, horizon=h)
    raise ValueError(name)


# ------------------------------------------------------------------- helper functions of the package

HELPER_NAMES = ('simplex_project_vector', 'simplex_project_vector(out)', 'simplex_project_columns',
                'simplex_project_rows', 'furthest_sum', 'furthest_sum(exclude list)', 'furthest_sum(exclude array)',
                'left_stochastic_matrix', 'right_stochastic_matrix')


def helper_configs():
    return [Conf(model='helper.' + h, helper=h) for h in HELPER_NAMES]


def run_helper(conf, sizes_=None):
    """Analyse one helper function without summaries: (session, inputs, result)."""
    h = conf['helper']
    x = S(options={'no_simplex_summary': True, 'no_fsum_summary': True})
    m, p = iatom('n_rows', 1), iatom('n_cols', 1)
    P, F, R = 'reor.simplex_projection.', 'reor.furthest_sum.furthest_sum', 'reor._random_matrix.'
    ins = {}
    if h.startswith('simplex_project_vector'):
        ins['x'] = x.arr('x', (p,))
        if h.endswith('(out)'):
            ins['out'] = x.arr('out', (p,))
            r = x.fn(P + 'simplex_project_vector', ins['x'], out=ins['out'])
        else:
            r = x.fn(P + 'simplex_project_vector', ins['x'])
    elif h.startswith('simplex'):
        ins['A'] = x.arr('A', (m, p))
        r = x.fn(P + h, ins['A'])
    elif h.startswith('furthest'):
        n, K = iatom('n_samples', 4), iatom('K', 2)
        ins['dissimilarity_matrix'] = x.arr('Dis', (n, n))
        x.fact(ge(n, s_add(K, const(2))))
        ex = s(None)
        if 'list' in h:
            ex = ins['exclude'] = x.lst([iatom('ex1', 0)], name='exclude')
        elif 'array' in h:
            ex = ins['exclude'] = x.arr('exclude', (iatom('n_excluded', 0),), dtype='i')
        r = x.fn(F, ins['dissimilarity_matrix'], K, iatom('start_index', 0), exclude=ex,
                 extra_steps=iatom('n_extra', 0))
    else:
        r = x.fn(R + h, Tup((m, p)), random_state=iatom('seed', 0))
    return x, ins, r


def basic(tier):
    """One or two configurations for every model and every kind of initialisation."""
    if tier == 'thorough':
        return all_models(tier)
    out = [C(m, init=i, K=K2) for m in (KAA, AA, GPNH, CROM, MTD) for i in ('random', 'furthest_sum')]
    out += [C(KAA, init='random', K=K2, delta=1), C(AA, init='random', K=K2, delta=1, kernel_func=1), C(AA, init='custom', K=K2),
            C(KAA, init='custom', K=K2), C(CROM, init='custom', K=K2),
            C(GPNH, init='custom', K=K2), C(MTD, init='custom', K=K2, lags=2), C(MTD, init='random', K=K2, lags=2),
            C(CROM, init='random', K=K2, lags=2),
            C(MTD, init='random', K=1), C(GPNH, init='random', K=K2, mono=0), C(KAA, init='furthest_sum', K=K2, exclude=1)]
    out += [C(FKM, K=K2, tv=0), C(FKM, K=K2, tv=1, wkw=1), C(FKM, K=1, tv=0), C(FKM, K=K2, tv=1, init='custom'),
            C(FVX, K=2, tv=1, u=0, memory=1), C(FVX, K=2, tv=0, u=1, memory=(0, 1)),
            C(FVX, K=2, tv=1, u=1, memory=(2, 1), init='custom'),
            C(PWV, p=1, u=1, s=1), C(PWV, p=1, u=1, s=1, full_opts=1, verb=1), C(PWV, p=2, u=0, s=0, verb=1), C(KMC)]
    return out
