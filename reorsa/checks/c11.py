"""C11: invalid settings and malformed custom factors are rejected before any optimisation."""
from fractions import Fraction

from ..scen import *
from ..report import run
from ..interp import Reached

RULES = {
    'reject': 'the call raises ValueError for the invalid argument',
    'first': 'nothing is optimised before the argument is rejected',
    'accept': 'the same call with valid arguments is not rejected',
}

N, D, K = 5, 3, 2
FS = 'reor.furthest_sum.furthest_sum'
LIMIT = iatom('max_iterations', 1)
LARGE_N = 8


def mat(x, rows, name):
    """A constant array from nested lists."""
    shape = []
    q = rows
    while isinstance(q, list):
        shape.append(len(q))
        q = q[0]
    flat = []

    def go(v):
        if isinstance(v, list):
            for w in v:
                go(w)
        else:
            flat.append(const(Fraction(v)))
    go(rows)
    return x.I.new_arr(x.st, ar.carr(flat, tuple(const(i) for i in shape)), 'f')


def simplex_rows(n, k):
    out = []
    for i in range(n):
        r = [Fraction(0)] * k
        r[i % k] += Fraction(1, 2)
        r[(i + 1) % k] += Fraction(1, 2)
        out.append(r)
    return out


def plain(n, d):
    return [[Fraction((3 * i + 2 * j) % 7, 2) - 1 for j in range(d)] for i in range(n)]


def T_(m):
    return [list(r) for r in zip(*m)]


def setrow(m, i, v):
    return [list(v) if j == i % len(m) else list(r) for j, r in enumerate(m)]


def bad_stochastic(n, k, axis=1):
    """Malformed variants of an (n, k) matrix with unit sums along an axis: (name, rows)."""
    ok = simplex_rows(n, k) if axis == 1 else T_(simplex_rows(k, n))
    out = [('one row too few', ok[:-1]), ('one row too many', ok + [ok[0]]),
           ('one column too few', simplex_rows(n, k - 1) if k > 1 else None),
           ('one column too many', simplex_rows(n, k + 1)), ('one dimension', ok[0]),
           ('a transposed matrix', T_(ok) if n != k else None)]
    big, neg = [Fraction(3, 4)] * k, [Fraction(3, 2), Fraction(-1, 2)] + [Fraction(0)] * (k - 2)
    zero = [Fraction(0)] * k
    for i, w in ((0, 'first'), (-1, 'last')):
        out += [('a %s row with a large sum' % w, setrow(ok, i, big)), ('a %s row of zeros' % w, setrow(ok, i, zero)),
                ('a %s row with a sum of 1.001' % w, setrow(ok, i, [Fraction(1001, 1000)] + zero[1:])),
                ('a %s row with a sum of 0.999' % w, setrow(ok, i, zero[1:] + [Fraction(999, 1000)])),
                ('a slightly negative entry in the %s row' % w,
                 setrow(ok, i, [Fraction(1001, 1000), Fraction(-1, 1000)] + zero[2:])),
                ('a negative entry in the %s row' % w, setrow(ok, i, neg)),
                ('a negative entry at the end of the %s row' % w, setrow(ok, i, neg[::-1]))]
    if n != k:                                   # unit sums along the other axis only
        out.append(('sums along the wrong axis', T_(simplex_rows(k, n))))
    return [(w, m) for w, m in out if m is not None]


def bad_shapes(n, d):
    ok = plain(n, d)
    return [('one row too few', ok[:-1]), ('one row too many', ok + [ok[0]]), ('one column too few', plain(n, d - 1)),
            ('one column too many', plain(n, d + 1)), ('one dimension', ok[0]), ('a transposed matrix', T_(ok))]


def cases():
    """(model, argument, description, settings, fit arguments)."""
    out = []
    ints = ((0, '0'), (-1, '-1'), (Fraction(5, 2), '2.5'), ('two', "'two'"))
    for m in (KAA, AA, GPNH, CROM, MTD, FKM, FVX):
        for v, w in ints:
            if m is not FVX or w in ('0', '-1'):
                out.append((m, 'n_components', w, dict(n_components=v), {}))
            out.append((m, 'max_iterations', w, dict(max_iterations=v), {}))
        out.append((m, 'max_iterations', '-7', dict(max_iterations=-7), {}))
        for v, w in ((-1, '-1'), (Fraction(-1, 10 ** 6), '-1e-6'), ('small', "'small'"), (None, 'None')):
            out.append((m, 'tolerance', w, dict(tolerance=v), {}))
        out.append((m, 'init', "'bogus'", dict(init='bogus'), {}))
        out.append((m, 'init', "'Random'", dict(init='Random'), {}))
    for m in (CROM, MTD):
        for v, w in (([0], '[0]'), ([-1], '[-1]'), ([Fraction(3, 2)], '[1.5]'), ([1, 0], '[1, 0]'), ([1, -2], '[1, -2]'),
                     ([2, Fraction(3, 2)], '[2, 1.5]')):
            out.append((m, 'lags', w, dict(lags=v), {}))
        for v, w in (([N], 'as many as samples'), ([N + 2], 'more than samples'), ([1, N], 'the last too large'),
                     ([N, 1], 'the first too large')):
            out.append((m, 'lags', w, dict(lags=v), {}))
    for v, w in ((-1, '-1'), (Fraction(3, 2), '1.5'), ([-1, 1], '[-1, 1]'), ([1, -1], '[1, -1]'),
                 ([Fraction(1, 2), 1], '[0.5, 1]'), ([1, Fraction(3, 2)], '[1, 1.5]'), ([1], 'a list that is too short'),
                 ([1, 1, 1], 'a list that is too long'), ('one', "'one'")):
        out.append((FVX, 'memory', w, dict(memory=v), {}))
    out += [(KAA, 'kernel', 'too wide', {}, dict(data=plain(N, N + 1))), (KAA, 'kernel', 'too high', {}, dict(data=plain(N + 1, N)))]
    for m in (KAA, AA):
        for w, v in bad_stochastic(N, K):
            out.append((m, 'weights', w, dict(init='custom'), dict(weights=v)))
        for w, v in bad_stochastic(K, N):
            out.append((m, 'dictionary', w, dict(init='custom'), dict(dictionary=v)))
    for m in (GPNH, CROM, MTD):
        for w, v in bad_stochastic(N, K):
            out.append((m, 'weights', w, dict(init='custom'), dict(weights=v)))
        for w, v in bad_shapes(K, D):
            out.append((m, 'dictionary', w, dict(init='custom'), dict(dictionary=v)))
    for m in (KAA, AA, GPNH, CROM, MTD):
        for a in ('weights', 'dictionary') + (('order_weights', 'transition_matrices') if m == MTD else ()):
            out.append((m, a, 'left out', dict(init='custom'), {a: None}))
    half = [Fraction(1, 2)] * 2
    for w, v in (('too short', [1]), ('too long', [half[0], Fraction(1, 4), Fraction(1, 4)]), ('of two dimensions', [half]),
                 ('with a large sum', [1, Fraction(1, 2)]), ('of zeros', [0, 0]),
                 ('with a negative first entry', [Fraction(-1, 2), Fraction(3, 2)]),
                 ('with a negative last entry', [Fraction(3, 2), Fraction(-1, 2)])):
        out.append((MTD, 'order_weights', w, dict(init='custom', lags=[1, 2]), dict(order_weights=v)))
    ok = stoch(K, 0)
    for w, v in (('one matrix too few', [ok]), ('one matrix too many', [ok, ok, ok]), ('one matrix only', ok),
                 ('too large matrices', [[[1, 0, 0], [0, 1, 0], [0, 0, 1]]] * 2),
                 ('row sums instead of column sums in the first', [T_(ok), ok]),
                 ('row sums instead of column sums in the last', [ok, T_(ok)]),
                 ('a negative entry in the first', [neg_col(ok), ok]), ('a negative entry in the last', [ok, neg_col(ok)]),
                 ('zeros in the last', [ok, [[0, 0], [0, 0]]])):
        out.append((MTD, 'transition_matrices', w, dict(init='custom', lags=[1, 2]), dict(transition_matrices=v)))
    for m, n in ((FKM, N), (FVX, LARGE_N - 1)):
        for w, v in bad_stochastic(n, K):
            out.append((m, 'weights', w, dict(init='custom'), dict(weights=v)))
    for w, v in bad_shapes(K, D):
        out.append((FKM, 'parameters', w, dict(init='custom'), dict(parameters=v)))
        out.append((FVX, 'parameters', 'mu: ' + w, dict(init='custom'), dict(mu=v)))
    for w, v in (('A: one component too few', [[plain(D, D)]]), ('A: two lags instead of one', [[plain(D, D)] * 2] * 2),
                 ('A: too small matrices', [[plain(D - 1, D - 1)]] * 2), ('A: three dimensions', [plain(D, D)] * 2)):
        out.append((FVX, 'parameters', w, dict(init='custom'), dict(A=v)))
    for w, v in (('B0: one component too few', [plain(D, 2)]), ('B0: one factor too many', [plain(D, 3)] * 2),
                 ('B0: one feature too few', [plain(D - 1, 2)] * 2)):
        out.append((FVX, 'parameters', w, dict(init='custom'), dict(B0=v, u=plain(LARGE_N, 2))))
    for n in (LARGE_N - 1, LARGE_N + 1, 1):
        out.append((FVX, 'external_factors', '%d instead of %d samples' % (n, LARGE_N), {}, dict(u=plain(n, 2))))
    for n in (LARGE_N - 1, LARGE_N + 2):
        for s_ in (1, 2):
            out.append((PWV, 'exog', '%d instead of %d samples, s=%d' % (n, LARGE_N, s_), dict(p=1, s=s_), dict(u=plain(n, 2))))
    for w, a in (('not square', dict(data=plain(N, N - 1))), ('not square', dict(data=plain(N - 1, N))),
                 ('start_index as large as the number of samples', dict(start_index=N)),
                 ('start_index too large', dict(start_index=N + 3)),
                 ('start_index excluded', dict(exclude=[1, 2], start_index=2)),
                 ('start_index excluded first', dict(exclude=[2, 1], start_index=2)),
                 ('more components than samples', dict(n_components=N + 1)),
                 ('more components than admissible samples', dict(n_components=N - 1, exclude=[0, 1]))):
        out.append((FS, 'arguments', w, {}, a))
    return out


def stoch(k, j):
    return [[Fraction(3, 4), Fraction(1, 2)], [Fraction(1, 4), Fraction(1, 2)]]


def neg_col(m):
    return [[Fraction(3, 2), m[0][1]], [Fraction(-1, 2), m[1][1]]]


GOOD = {}


def valid(m):
    """Valid settings and fit arguments."""
    n = LARGE_N if m in (FVX, PWV) else N
    st = dict(n_components=K, max_iterations=LIMIT, tolerance=Fraction(1, 100), init='random')
    fit = dict(data=plain(n, n) if m in (KAA, FS) else plain(n, D), weights=simplex_rows(n, K))
    if m in (KAA, AA):
        fit['dictionary'] = simplex_rows(K, n)
    elif m in (GPNH, CROM, MTD):
        fit['dictionary'] = plain(K, D)
    if m == MTD:
        fit['order_weights'] = [1]
        fit['transition_matrices'] = [stoch(K, 0)]
    if m == FKM:
        fit['parameters'] = plain(K, D)
    if m == FVX:
        st['memory'] = 1
        fit['weights'] = simplex_rows(n - 1, K)
        fit['mu'], fit['A'], fit['B0'] = plain(K, D), [[plain(D, D)]] * 2, None
    return st, fit


def build(m, st, fit):
    """Construct and fit with the given arguments: (session, died in the constructor or the fit)."""
    x = S(options={'stop_loop': LIMIT, 'no_fsum_summary': m == FS})
    try:
        return run_it(x, m, st, fit)
    except Reached:
        x.reached = True
        return x


def run_it(x, m, st, fit):
    x.reached = False
    if m == FS:
        a = dict(dict(n_components=K, start_index=0, exclude=[]), **fit)
        x.fn(FS, mat(x, a['data'], 'D'), const(a['n_components']), const(a['start_index']),
             exclude=x.lst([const(v) for v in a['exclude']]))
        return x
    kw = {}
    for a, v in st.items():
        kw[a] = x.lst([const(q) for q in v]) if isinstance(v, list) else v if isinstance(v, Term) else const(v)
    kc = kw.pop('n_components')
    if m == PWV:
        kw.pop('init')
    o = x.make(m, kc, random_state=const(3), **kw)
    if x.dead:
        return x
    fkw = {}
    custom = st.get('init') == 'custom'

    def put(a, v):
        fkw[a] = mat(x, v, a) if isinstance(v, list) else const(v)
    X = mat(x, fit['data'], 'data')
    if custom:
        for a in ('weights', 'dictionary', 'order_weights', 'transition_matrices') + (('parameters',) if m == FKM else ()):
            if a in fit:
                put(a, fit[a])
        if m == FVX:
            if fit.get('u') is not None and fit['B0'] is None:
                fit['B0'] = [plain(D, 2)] * 2
            fkw['parameters'] = I_dict(x, {a: (mat(x, fit[a], a) if fit[a] is not None else const(None))
                                           for a in ('mu', 'A', 'B0')}, 'parameters')
    if m == FVX and fit.get('u') is not None:
        fkw['external_factors'] = mat(x, fit['u'], 'external_factors')
    if m == PWV and fit.get('u') is not None:
        fkw['exog'] = mat(x, fit['u'], 'exog')
    x.call(o, 'fit_transform', X, **fkw)
    return x


def analyse(conf, col):
    m = conf['model']
    name = m.rsplit('.', 1)[1]
    mine = [c for c in cases() if c[0] == m and c[1] == conf['arg']]
    shapes = {}
    for _, arg, what, st, fit in mine:
        s0, f0 = valid(m)
        s0.update(st)
        if 'lags' in st and st.get('init') == 'custom' and m == MTD:
            L = len(st['lags'])
            f0.update(order_weights=[Fraction(1, L)] * L, transition_matrices=[stoch(K, 0)] * L)
        key = tuple(sorted((k, str(v)) for k, v in st.items() if k != arg)) + ('u' in fit,)
        if key not in shapes:                      # the same call with a valid value
            s1 = dict(s0)
            if arg in st:
                s1[arg] = valid(m)[0].get(arg)
                if arg == 'lags':
                    s1.pop('lags')
            f1 = dict(f0)
            if 'u' in fit:
                f1['u'] = plain(LARGE_N, 2)
            xv = build(m, s1, f1)
            shapes[key] = not xv.dead
            if xv.dead is False and not xv.reached and m not in (FS, PWV):
                col.unk('accept', '%s: valid %s' % (name, arg), 'the main loop was not recognised')
            ev = [e for e in xv.I.events if e.kind in ('raise', 'shape', 'indexerror') and not e.data.get('intry')]
            label = '%s: valid %s, init=%s' % (name, arg, s1.get('init'))
            if xv.dead and ev and ev[-1].kind == 'raise':
                col.bad('accept', label, 'rejected by %s: %s' % (ev[-1].func, ev[-1].text[:120]), ev[-1].where())
            else:
                col.decide(True if not xv.dead else None, 'accept', label, 'the call returns')
            col.functions |= xv.I.seen_functions
        f0.update(fit)
        x = build(m, s0, f0)
        col.functions |= x.I.seen_functions
        label = '%s: %s %s' % (name, arg, what)
        evs = x.I.events
        mism = [e for e in evs if e.kind == 'shape']
        if m == PWV and mism:                       # numpy raises ValueError where the shapes meet
            col.ok('reject', label, 'a ValueError of numpy: %s' % mism[0].text[:80], mism[0].where())
            continue
        if not x.dead:
            unsure = [e for e in evs if e.kind == 'raise' and not e.data.get('intry') and any(
                isinstance(c, Term) and c.op != 'const' for c, v in e.pc)]
            if unsure:
                col.unk('reject', label, 'rejected under a condition that is not decided', unsure[-1].where())
            else:
                col.bad('reject', label, 'the iterations start although the argument is invalid' if x.reached else
                        'the call returns although the argument is invalid')
            continue
        stop = [e for e in evs if e.kind in ('raise', 'shape', 'indexerror', 'none-operand', 'noattr', 'bind',
                                             'unmodelled', 'unsupported')]
        last = stop[-1] if stop else None
        if last is None or last.kind in ('unmodelled', 'unsupported'):
            col.unk('reject', label, 'the analysis stopped: %s' % (last and last.text[:120],))
            continue
        if last.kind == 'raise':
            exc = str(last.data.get('exc'))
            if exc.rsplit('.', 1)[-1] == 'ValueError':
                col.ok('reject', label, 'ValueError in %s' % last.func, last.where())
            else:
                col.bad('reject', label, '%s instead of ValueError' % exc, last.where())
        else:
            col.bad('reject', label, 'not checked: the call fails in %s at %s' % (last.func, last.text[:120]), last.where())
        work = [e for e in evs if e.kind in ('solve', 'fitted', 'opt')]
        loops = [f for f in x.I.seen_functions if any(w in f for w in OPT)]
        if loops:
            col.bad('first', label, 'rejected only after %s has run' % sorted(loops)[0], last.where())
        else:
            col.ok('first', label, 'rejected before any update or iteration')


OPT = ('._iterate', '._update_', '._solve')


def configs(tier):
    seen = []
    for c in cases():
        k = C(c[0], arg=c[1])
        if k not in seen:
            seen.append(k)
    return seen


def main(tier):
    return run('C11', analyse, configs(tier), RULES,
               'Path-sensitive constant propagation: each estimator is analysed with one invalid argument of every kind '
               '(the others valid and constant); every path must end in a raised ValueError before any function that '
               'iterates or updates has been entered.', tier, need=('reject', 'first'))
