"""C23: equivalent ways of asking give the same answer."""
from ..scen import *
from ..scen import Ctx
from ..report import run
from .. import nf, arrays as ar
from ..align import Align
from ..search import transparent, by_orders, orders, flags, unproject
from ..loops import session_loops, FALSE
import ast
import difflib
import re
from .c14 import fitted, predicted

RULES = {
    'fit': 'fit leaves the same public attributes as fit_transform',
    'labels': 'fit_predict returns the labels that fit leaves',
    'after fit': 'transform and predict give the same after fit as after fit_transform',
    'kernel': 'archetypal analysis without kernel function is kernel archetypal analysis of the inner products',
    'forecast': 'the two lag-weighted models make the same forecast from the same parameters',
    'range': 'no product, sum or difference of the samples is formed in the integer type of the caller, where it can overflow',
    'integers': 'integer-valued samples give the same model as the same samples in floating point',
}


def configs(tier):
    out = []
    for c in all_models(tier):
        if c.get('dtype') == 'i':
            continue
        heavy = c['model'] in (MTD, CROM)
        if heavy and tier != 'thorough' and (c.get('init') == 'custom' and c.get('lags') or c.get('mono') is not None):
            continue
        after = not heavy or tier == 'thorough' or c.get('init') == 'random' and c.get('K') == K2 and not c.get('lags')
        out.append(Conf(dict(c, rule='fit', then=int(after))))
    for c in factorisations(tier, models=(AA,)):
        if not c.get('kernel_func') and c.get('dtype') != 'i':
            out.append(Conf(dict(c, rule='kernel')))
    for lags in ((1,), (2,), (1, 2), (2, 1), (1, 3)) + (((2, 3), (1, 2, 3)) if tier == 'thorough' else ()):
        for h in (0, 1, 'any'):
            out.append(C(MTD, rule='forecast', given=lags, horizon=h, init='random'))
    for m in (KAA, AA, GPNH, CROM, MTD):
        for init in ('random', 'furthest_sum') + (('custom',) if tier == 'thorough' else ()):
            out.append(C(m, init=init, K=K2, rule='integers'))
    out.append(C(FKM, K=K2, tv=1, rule='integers'))
    out.append(C(FVX, K=2, tv=1, u=0, memory=1, rule='integers'))
    out.append(C(PWV, p=1, u=1, s=1, rule='integers'))
    out.append(C(PWV, p=2, u=0, s=0, rule='integers'))
    out.append(C(KMC, rule='integers'))
    return sorted(out, key=lambda c: (c['model'] != MTD, not c.get('lags')))


def public(x, at):
    out = {}
    for a, v in at.items():
        if a.endswith('_') and not a.startswith('_'):
            out[a] = v
    return out


class Pairs:
    """Values of two runs, matched together; a pair that clashes is compared in normal form once all have been seen."""

    def __init__(self, col, rule, f, k1, k2):
        self.col, self.rule, self.f, self.k1, self.k2 = col, rule, f, k1, k2
        self.A = Align()
        self.bad = []
        self.good = []

    def add(self, what, v1, v2):
        p, q = self.k1.x.t(v1), self.k2.x.t(v2)
        if p is None and q is None:
            if v1 == v2:
                return self.col.ok(self.rule, self.f, '%s: the same value' % what)
            return self.col.unk(self.rule, self.f, '%s is not a number or an array' % what)
        if not isinstance(p, Term) or not isinstance(q, Term):
            return self.col.unk(self.rule, self.f, '%s is not understood' % what)
        n = self.A.steps
        bad = self.A.roots(p, q, what)
        if bad:
            self.bad.append((what, bad))
        else:
            self.good.append((what, self.A.steps - n))

    def close(self):
        A, col, rule, f = self.A, self.col, self.rule, self.f
        for what, n in self.good:
            if self.bad:
                col.unk(rule, f, '%s matched, given the others' % what)
            else:
                col.ok(rule, f, '%s matched through %d loop values (%d steps)' % (what, len(A.assumed), n))
        back = {v: u for u, v in counterparts(self.k1.x, self.k2.x).items()}
        back.update({v: u for u, v in A.assumed.items() if isinstance(u, Term) and isinstance(v, Term)})
        for what, bad in self.bad:
            text = None
            for a, b, why, clash, tr in bad:
                for u, v in descend(a, tm.subst(b, back) if isinstance(b, Term) else b):
                    d = certain(self.k1, u, v)
                    if d:
                        text = '%s: %s differs: %s' % (what, why, d)
                        break
                if text:
                    break
            if text:
                col.bad(rule, f, text)
            else:
                a, b, why, clash, tr = bad[0]
                sh = lambda t: tm.show(t)[:110] if isinstance(t, Term) else str(t)[:110]
                col.unk(rule, f, '%s: %s not matched: %s / %s' % ((what, why) + tuple(sh(q) for q in (clash or (a, b)))))


def counterparts(x, y):
    """Loop values of two runs that stand at the same place of the same loops."""
    out = {}
    lx, ly = session_loops(x), session_loops(y)
    sig = lambda L: (getattr(L.func, 'qualname', str(L.func)), ast.dump(L.node) if L.node is not None else '')
    sx, sy = [sig(L) for L in lx], [sig(L) for L in ly]
    for blk in difflib.SequenceMatcher(None, sx, sy, autojunk=False).get_matching_blocks():
        for L, M in zip(lx[blk.a:blk.a + blk.size], ly[blk.b:blk.b + blk.size]):
            for u, v in ((L.k, M.k), (L.brk, M.brk)):
                if isinstance(u, Term) and isinstance(v, Term):
                    out[u] = v
            nu, nv = names(L), names(M)
            for n in nu:
                if n in nv and nu[n] is not None and nv[n] is not None:
                    out[nu[n]] = nv[n]
    return out


def names(L):
    out = {}
    for p in L.phis:
        n = re.sub(r'q\d+:|(?<=[a-z])\d+(?=\.)', '', ' '.join(str(q) for q in p.args[1:]))
        out[n] = None if n in out else p
    return out


def descend(a, b):
    """Corresponding parts of two values that differ."""
    if a is b or not isinstance(a, Term) or not isinstance(b, Term):
        return
    if a.op == b.op and a.op in ('not', 'ge0', 'abs', 'T', 'ite', 'and', 'or'):
        x, y = tm.children(a), tm.children(b)
        if len(x) == len(y):
            for p, q in zip(x, y):
                yield from descend(p, q)
            return
    p, q = unproject(a), unproject(b)
    if p is not None and q is not None and isinstance(p, Term) and isinstance(q, Term):
        yield from descend(p, q)
        return
    yield a, b


def certain(k, a, b):
    mp = {c: FALSE for t in (a, b) for c in flags(t)}
    if mp:
        nf.fresh()
        a, b = tm.subst(a, mp), tm.subst(b, mp)
    if {u for u in tm.free_atoms(a) if own(u)} ^ {u for u in tm.free_atoms(b) if own(u)}:
        return None                                   # loop values that were not matched
    return difference(k, a, b)


def compare(col, rule, f, what, k1, v1, k2, v2):
    P = Pairs(col, rule, f, k1, k2)
    P.add(what, v1, v2)
    P.close()


def own(u):
    return u.op == 'phi' or u.op == 'atom' and ('@' in str(u.args[0]) or str(u.args[0])[:1] == 'q' and ':' in str(u.args[0]))


def difference(k, a, b):
    """Text of a certain difference, or None."""
    if a.op == 'const' and b.op == 'const':
        return '%s / %s' % (a, b) if a is not b else None
    sa, sb = a.shape, b.shape
    if sa is None or sb is None or len(sa) != len(sb):
        return None
    out = []

    def job(u, v):
        try:
            if not sa:
                A, B = nf.scalar(u), nf.scalar(v)
                d = nf.sdiff(A, B)
                if d and transparent(A, True) and transparent(B, True):
                    out.append(nf.show(d)[:200])
                else:
                    out.append(None)
            elif len(sa) == 2:
                A, B = nf.matrix(u), nf.matrix(v)
                if not nf.meq(A, B) and transparent(A, False) and transparent(B, False):
                    out.append('%s / %s' % (nf.show(A, False)[:100], nf.show(B, False)[:100]))
                else:
                    out.append(None)
            else:
                out.append(None)
        except nf.Hard:
            out.append(None)
    nf.fresh()
    try:
        for mx, facts in orders(k, a, b):
            by_orders(k, facts, lambda base: job(tm.subst(a, mx), tm.subst(b, mx)))
    except nf.Hard:
        return None
    k.x.I.sync(k.x.st)
    return out[0] if out and all(out) else None


def pair(col, rule, f, k1, k2, results=None):
    """Compare the public attributes of two fitted models."""
    a1, a2 = k1.x.attrs(k1.o), k2.x.attrs(k2.o)
    p1, p2 = public(k1.x, a1), public(k2.x, a2)
    P = Pairs(col, rule, f, k1, k2)
    if results and None not in results:
        P.add('the result', *results)
    for a in sorted(set(p1) | set(p2), key=lambda a: (a == 'cost_', a == 'n_iter_', a)):
        if a in p1 and a in p2:
            P.add(a, p1[a], p2[a])
        else:
            col.bad(rule, f, '%s is set by one of the two only' % a)
    P.close()


def analyse(conf, col):
    rule = conf['rule']
    model = conf['model'].rsplit('.', 1)[1]
    {'fit': fits, 'kernel': kernels, 'forecast': forecasts, 'integers': integers}[rule](conf, col, model)


def ready(col, rule, f, *ks):
    for k in ks:
        col.functions |= k.x.I.seen_functions
        if k.x.dead:
            col.unk(rule, f, 'no path returns (see C22)')
            return False
    return True


def fits(conf, col, model):
    ways = ['fit', 'fit_transform'] + (['fit_predict'] if conf['model'] == KMC else [])
    ks = []
    for w in ways:
        k = Ctx(conf)
        k.result = step(k, w, 0, True)
        ks.append(k)
    f = '%s.fit' % model
    if not ready(col, 'fit', f, *ks):
        return
    for w, k in zip(ways[1:], ks[1:]):
        pair(col, 'fit', '%s.fit / %s' % (model, w), ks[0], k)
    if conf['model'] == KMC:
        compare(col, 'labels', '%s.fit_predict' % model, 'labels', ks[0], ks[0].x.attrs(ks[0].o).get('labels_'), ks[2], ks[2].result)
    if not conf['then']:
        return
    then = ['transform'] + (['predict'] if conf['model'] in (CROM, MTD, KMC) else [])
    for nxt in then:
        if conf['model'] == KMC and nxt == 'predict' or conf['model'] != KMC or nxt == 'transform':
            rs = []
            for k in ks[:2]:
                rs.append(step(k, nxt, 1, False))
            g = '%s.%s' % (model, nxt)
            if not ready(col, 'after fit', g, *ks[:2]):
                return
            if rs[0] is None or rs[1] is None:
                return col.unk('after fit', g, 'no result')
            compare(col, 'after fit', g, 'the result', ks[0], rs[0], ks[1], rs[1])


def kernels(conf, col, model):
    k1 = Ctx(conf)
    r1 = step(k1, 'fit_transform', 0, True)
    f = '%s.fit_transform / KernelAA.fit_transform' % model
    if not ready(col, 'kernel', f, k1):
        return
    c2 = Conf(conf)
    c2['model'] = KAA
    k2 = Ctx(c2)
    _, kw2, _ = k2.data('')
    gram = lambda X: ar.dot(X, ar.transpose_axes(X, (1, 0)))
    kern = k2.x.arr_of(gram(k1.x.t(k1.X)), 'inner products')
    if hasattr(k1, 'delta'):
        k2.delta = k1.delta
    r2 = k2.x.call(k2.o, 'fit_transform', kern, **kw2)
    if not ready(col, 'kernel', f, k2):
        return
    pair(col, 'kernel', f, k1, k2, (r1, r2))
    r1 = step(k1, 'transform', 1, False)
    f = '%s.transform / KernelAA.transform' % model
    if not ready(col, 'kernel', f, k1):
        return
    r2 = k2.x.call(k2.o, 'transform', k2.x.arr_of(gram(k1.x.t(k1.last)), 'inner products'))
    if not ready(col, 'kernel', f, k2):
        return
    compare(col, 'kernel', f, 'the result', k1, r1, k2, r2)


def forecasts(conf, col, model):
    lags, h = conf['given'], conf['horizon']
    f = 'predict (lags %s, horizon %s)' % (list(lags), h)
    out = []
    for m in (MTD, CROM):
        k = Ctx(Conf(model=m, init='random', K=K2))
        kw = dict(k.kw)
        kw['lags'] = k.x.lst([s(l) for l in lags], name='lags')
        k.o = k.x.make(m, k.K, **kw)
        new = fitted(k)
        if new is None or len(new) < 3:
            return col.unk('forecast', f, 'the fitted parameters were not found')
        n = iatom('n_new', 1)
        k.x.fact(ge(n, const(12)))
        W, r, hits = predicted(k, n, iatom('horizon', 0) if h == 'any' else s(h))
        if not ready(col, 'forecast', f, k):
            return
        if not hits:
            return col.unk('forecast', f, 'the forecast does not start from transform')
        out.append((k, r))
    (k1, r1), (k2, r2) = out
    compare(col, 'forecast', f, 'the forecast', k1, r1, k2, r2)


VIEWS = {'T', 'perm', 'index', 'reshape', 'stack', 'cat', 'bcast', 'diag', 'carr'}
SUMS = {'dot', 'lin', 'mul', 'poly', 'abs', 'ew', 'outer'}


def whole(t):
    """(understood, arithmetic, samples) for an array: it is made of samples and whole numbers only, by arithmetic."""
    if t.op == 'const':
        return isinstance(tm.cval(t), int), False, False
    if t.op == 'atom':
        return str(t.args[0]).startswith(('X', 'Kern', 'U')) and t.shape not in (None, ()), False, True
    if t.op not in VIEWS and t.op not in SUMS or t.op == 'ew' and t.args[0] not in ('square', 'abs', 'absolute', 'negative'):
        return False, False, False
    if t.op in VIEWS and t.op not in ('stack', 'cat', 'carr'):
        return whole(t.args[0])
    rs = [whole(c) for c in tm.children(t) if c.op != 'bv']
    return all(r[0] for r in rs), t.op in SUMS or any(r[1] for r in rs), any(r[2] for r in rs)


def watch(k, seen):
    """Notes arrays of integers that arithmetic makes out of the samples."""
    I = k.x.I
    new = I.new_arr

    def new_arr(st, term, dtype=None, origin=None):
        if dtype == 'i' and isinstance(term, Term) and term.shape:
            try:
                ok, arith, data = whole(term)
            except RecursionError:
                ok = False
            if ok and arith and data:
                func = I.stack[-1][0] if I.stack else '?'
                text = ast.unparse(I.node).splitlines()[0][:90] if I.node is not None else tm.show(term)[:60]
                seen.setdefault('%s: %s' % (func, text), tm.show(term)[:80])
        return new(st, term, dtype, origin)
    I.new_arr = new_arr


def integers(conf, col, model):
    ks = []
    seen = {}
    for dt in ('i', 'f'):
        k = Ctx(Conf(dict(conf, dtype=dt)))
        if dt == 'i':
            watch(k, seen)
        k.result = step(k, 'fit_transform', 0, True)
        ks.append(k)
    f = '%s.fit_transform of integers' % model
    if not ready(col, 'integers', f, *ks):
        return
    step(ks[0], 'transform', 1, False)
    if seen:
        for w in sorted(seen):
            col.bad('range', w, '%s is formed in the integer type of the samples' % seen[w])
    else:
        col.ok('range', f, 'no array of integers is formed from the samples by arithmetic')
    pair(col, 'integers', f, *ks, results=(ks[0].result, ks[1].result))


def main(tier):
    return run('C23', analyse, configs(tier), RULES,
               'Two runs of the abstract interpreter on the same symbolic samples, one for each way of asking; the resulting value graphs '
               'are matched optimistically: values of loops are assumed to correspond and the assumption is discharged on '
               'their entry and next values, the trip counts and the ways out.  Where a pair does not match, the two sides are '
               'compared in normal form, and a certain difference is a violation.', tier, need=('fit', 'kernel', 'forecast'))
