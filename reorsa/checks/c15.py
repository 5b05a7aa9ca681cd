"""C15: the linear program for the weights states exactly the intended constraints."""
from ..scen import *
from ..loops import *
from ..report import run

RULES = {
    'objective': 'the objective is the sum over samples and components of weight times distance, and nothing else',
    'layout': 'the solution is read back in the order in which the program was laid out',
    'row-sum': 'there is exactly one unit-sum constraint per sample, over the weights of that sample',
    'non-negative': 'every weight is constrained to be non-negative',
    'dominate': 'an auxiliary variable dominates the absolute successive difference of each component at each step',
    'bound': 'the auxiliary variables of each component sum to at most max_tv_norm',
    'nothing else': 'no further constraint restricts the weights',
    'stated': 'the weights come from a linear program that is solved',
}


class Unknown(Exception):
    pass


def elem(t, *ix):
    if t.shape == ():
        return t
    return ar.index(t, tuple(('i', const(i)) for i in ix))


def num(t):
    if not tm.is_num_const(t):
        raise Unknown('not a number: %s' % tm.show(t)[:80])
    return tm.cval(t)


def length(t):
    if t.shape is None or len(t.shape) > 1:
        raise Unknown('shape of %s' % tm.show(t)[:80])
    return 1 if t.shape == () else int(num(t.shape[0]))


def sadd(a, b):
    return {k: s_add(a.get(k, const(0)), b.get(k, const(0))) for k in set(a) | set(b)}


def scale(a, c):
    return {k: s_mul(v, c) for k, v in a.items()}


class Lin:
    """Evaluates cvxpy expressions over one vector variable to lists of {variable index or 'c': coefficient}."""

    def __init__(self):
        self.var = None
        self.nonneg = False

    def ev(self, t):
        if t.op == 'ext':
            nm, a = t.args[0], t.args[1]
            if nm == 'x:Variable':
                if self.var is not None and self.var is not t:
                    raise Unknown('several variables')
                self.var = t
                n = a[1]
                ats = [u for u in a[2:] if isinstance(u, Term) and tm.is_const(u)]
                self.nonneg = any(tm.cval(u) == 'nonneg' for u in ats) and any(tm.cval(u) is True for u in ats)
                if len(a) > 2 and not self.nonneg:
                    raise Unknown('attributes of the variable')
                if not isinstance(n, Term) or not tm.is_num_const(n):
                    raise Unknown('shape of the variable')
                return [{i: const(1)} for i in range(int(tm.cval(n)))]
            if nm in ('xMatMult', 'xMult'):
                return self.mul(a[0], a[1], nm)
            if nm in ('xAdd', 'xSub'):
                p, q = self.ev(a[0]), self.ev(a[1])
                if nm == 'xSub':
                    q = [scale(r, const(-1)) for r in q]
                if len(p) != len(q):
                    p, q = (p * len(q), q) if len(p) == 1 else (p, q * len(p))
                if len(p) != len(q):
                    raise Unknown('lengths')
                return [sadd(r, s_) for r, s_ in zip(p, q)]
            if nm == 'xUSub':
                return [scale(r, const(-1)) for r in self.ev(a[0])]
            raise Unknown(nm)
        return [{'c': elem(t, i)} for i in range(length(t))]

    def matrix(self, t):
        """dict (row, col) -> coefficient, rows, cols."""
        if t.op == 'csr':
            if len(t.args) == 3:
                d, r, c = t.args
                m = {}
                for i in range(length(d)):
                    k = (int(num(elem(r, i))), int(num(elem(c, i))))
                    m[k] = s_add(m.get(k, const(0)), elem(d, i))
                if t.shape is None:
                    raise Unknown('shape of a sparse matrix')
                return m, int(num(t.shape[0])), int(num(t.shape[1]))
            t = t.args[0]
        if t.shape is not None and len(t.shape) == 2 and t.op != 'ext':
            n, k = int(num(t.shape[0])), int(num(t.shape[1]))
            return {(i, j): elem(t, i, j) for i in range(n) for j in range(k)}, n, k
        raise Unknown('matrix %s' % tm.show(t)[:80])

    def mul(self, a, b, nm):
        def isx(t):
            return t.op == 'ext' and str(t.args[0]).startswith('x')
        if nm == 'xMult':
            if not isx(a) and a.shape == ():
                return [scale(r, a) for r in self.ev(b)]
            if not isx(b) and b.shape == ():
                return [scale(r, b) for r in self.ev(a)]
            raise Unknown('product')
        if isx(a) and not isx(b):
            a, b = b, a
            if a.shape is not None and len(a.shape) == 2:
                raise Unknown('product with a matrix on the right')
        v = self.ev(b)
        if a.op != 'csr' and a.shape is not None and len(a.shape) == 1:
            if length(a) != len(v):
                raise Unknown('lengths of an inner product')
            out = {}
            for i, r in enumerate(v):
                out = sadd(out, scale(r, elem(a, i)))
            return [out]
        m, n, k = self.matrix(a)
        if any(not (0 <= i < n and 0 <= j < k) for i, j in m):
            raise Bad('an entry lies outside its matrix of shape (%d, %d)' % (n, k))
        if k != len(v):
            raise Bad('a matrix with %d columns multiplies a vector of %d' % (k, len(v)))
        out = [{} for _ in range(n)]
        for (i, j), c in m.items():
            out[i] = sadd(out[i], scale(v[j], c))
        return out


class Bad(Exception):
    pass


def clean(r):
    return {k: v for k, v in r.items() if not (tm.is_num_const(v) and tm.cval(v) == 0)}


def norm_row(r):
    """Scale a row so that its smallest variable has a coefficient of absolute value one; coefficients are numbers."""
    r = clean(r)
    ks = sorted(k for k in r if k != 'c')
    if not ks:
        return r
    c = num(r[ks[0]])
    return {k: tm.s_div(v, const(abs(c))) for k, v in r.items()}


def problems(x, ts):
    found, seen = [], set()
    st = [t for t in ts if isinstance(t, Term)]
    while st:
        u = st.pop()
        if not isinstance(u, Term) or u in seen:
            continue
        seen.add(u)
        for w in tm.subterms(u):
            if w.op == 'ext' and w.args[0] == 'x:Problem' and w not in found:
                found.append(w)
            if w in PHIINFO and w not in seen:
                st += [PHIINFO[w][0], PHIINFO[w][1]]
    return found


def configs(tier):
    out = []
    grid = [(2, 2), (3, 2), (4, 2), (3, 3), (4, 3), (5, 3)] + ([(6, 4), (8, 2), (7, 5)] if tier == 'thorough' else [])
    for n, K in grid:
        for tv in (0, 1):
            out.append(C(FKM, n=n, K=K, tv=tv, then='transform', n2=n + 1))
    out.append(C(FKM, n=4, K=2, tv=1, then='fit_transform', n2=3))
    out.append(C(FKM, n=4, K=2, tv='zero', then='transform', n2=3))
    for mem in (1, (0, 2)):
        out.append(C(FVX, n=5, K=2, tv=1, memory=mem, then='transform', n2=6))
    out.append(C(FVX, n=4, K=2, tv=0, memory=0, then='fit_transform', n2=5))
    return out


def analyse(conf, col):
    x = S(options={'lp_status': 'optimal'})
    y = sym()
    K, m = conf['K'], conf['model']
    tv = s(None) if not conf['tv'] else s(0.0) if conf['tv'] == 'zero' else fatom('max_tv_norm', 0)
    kw = dict(random_state=y['seed'], max_iterations=y['maxit'], tolerance=y['tol'], verbose=s(0), max_tv_norm=tv)
    pre = 0
    if m == FVX:
        mem = conf['memory']
        kw['memory'] = s(mem) if isinstance(mem, int) else x.lst([s(v) for v in mem])
        pre = mem if isinstance(mem, int) else max(mem)
    o = x.make(m, const(K), **kw)
    d = const(2)
    for i, (meth, n) in enumerate((('fit_transform', conf['n']), (conf['then'], conf['n2']))):
        since = set(LOOPS)
        X = x.arr('X' + "'" * i, (const(n), d))
        r = x.call(o, meth, X)
        if x.dead:
            col.unk('stated', '%s.%s' % (conf['model'], meth), 'no path returns')
            return
        one(conf, col, x, o, y, x.t(r), n - pre, K, tv if conf['tv'] else None, meth, since)
    col.functions |= x.I.seen_functions


def one(conf, col, x, o, y, r, n, K, tv, meth, since):
    model = conf['model'].rsplit('.', 1)[1]
    f = '%s.%s' % (model, meth)
    Ls = main_loops(x, y['maxit'], since)
    ps = problems(x, [r])
    if not ps:
        col.bad('stated', f, 'the returned weights do not depend on a linear program') if not any(
            e.kind in ('unmodelled', 'unsupported') for e in x.I.events) else col.unk('stated', f, 'no program found')
        return
    L = next((L for L in Ls), None)
    if L is None:
        col.unk('stated', f, 'main loop not found')
        return
    w = cof(r, L.brk, True)
    # the program whose solution is returned on the converged exit
    lps = {u for u in tm.subterms(w) if u.op == 'lpvalue'}
    cur = {u.args[0] for u in lps}
    top = [p for p in cur if not any(p is not q and p in tm.subterms(q) for q in cur)] or list(cur)
    if len(top) != 1:
        col.unk('stated', f, '%d programs' % len(top))
        return
    P = top[0]
    if any(P in tm.subterms(q) for q in ps if q is not P):
        pass
    col.ok('stated', f, 'one program per iteration')
    try:
        decide(conf, col, x, o, w, P, n, K, tv, f, L)
    except Bad as e:
        col.bad('stated', f, str(e))
    except Unknown as e:
        col.unk('layout', f, str(e))


def core(t):
    """Variable index behind a clipped entry of the solution."""
    found = {u for u in tm.subterms(t) if u.op in ('index', 'idx', 'at') and False}
    return found


def readback(w, P, n, K):
    lay = {}
    for t in range(n):
        for i in range(K):
            e = elem(w, t, i)
            js = set()
            st = [e]
            seen = set()
            while st:
                u = st.pop()
                if u in seen or not isinstance(u, Term):
                    continue
                seen.add(u)
                if is_entry(u, P):
                    js.add(entry(u))
                    continue
                st.extend(tm.children(u))
            if len(js) != 1:
                raise Unknown('entry (%d, %d) of the weights comes from %d entries of the solution' % (t, i, len(js)))
            lay[(t, i)] = js.pop()
    return lay


def is_entry(u, P):
    if u.op == 'ix' or u.op == 'index' or u.op == 'getitem' or u.op == 'elem':
        a = u.args[0]
        return isinstance(a, Term) and a.op == 'lpvalue' and a.args[0] is P
    return False


def entry(u):
    ns = [c for c in tm.children(u)[1:] if tm.is_num_const(c)]
    if len(ns) != 1:
        raise Unknown('entry %s' % tm.show(u)[:60])
    return int(tm.cval(ns[0]))


def decide(conf, col, x, o, w, P, n, K, tv, f, L):
    lay = readback(w, P, n, K)
    if len(set(lay.values())) != n * K:
        col.bad('layout', f, 'entries of the solution are used twice: %s' % lay)
        return
    inv = {j: ti for ti, j in lay.items()}
    col.ok('layout', f, 'every weight is read from its own entry')
    ln = Lin()
    parts = P.args[1]
    obj = parts[0]
    if obj.args[0] != 'x:Minimize':
        if obj.args[0] == 'x:Maximize':
            col.bad('objective', f, 'the program is a maximisation')
            return
        raise Unknown('objective')
    c = clean(ln.ev(obj.args[1][0])[0])
    eqs, les = [], []
    for con in parts[1:]:
        if con.op != 'ext':
            raise Unknown('constraint %s' % tm.show(con)[:80])
        nm, (a, b) = con.args[0], con.args[1][:2]
        p, q = ln.ev(a), ln.ev(b)
        if len(p) != len(q):
            if len(p) == 1 or len(q) == 1:
                p, q = (p * len(q), q) if len(p) == 1 else (p, q * len(p))
            else:
                raise Bad('%d constraint rows against %d right-hand sides' % (len(p), len(q)))
        for u, v in zip(p, q):
            if nm == 'xEq':
                eqs.append(norm_row(sadd(u, scale(v, const(-1)))))
            elif nm in ('xLtE', 'xLt'):
                les.append(norm_row(sadd(u, scale(v, const(-1)))))
            elif nm in ('xGtE', 'xGt'):
                les.append(norm_row(sadd(v, scale(u, const(-1)))))
            else:
                raise Unknown(nm)
    # objective
    D = x.attrs(o).get('distance_matrix')
    D = cof(x.t(D), L.brk, True) if D is not None else None
    bad = [k for k in c if k not in inv]
    if bad:
        col.bad('objective', f, 'entries %s, which are no weights, take part in the objective' % bad)
    elif D is None:
        col.unk('objective', f, 'no distance matrix')
    else:
        wrong = [(t, i) for (t, i), j in lay.items() if not prove.prove_eq(c.get(j, const(0)), elem(D, t, i))]
        if not wrong:
            col.ok('objective', f, '%d coefficients are the distances' % len(lay))
        elif any(c.get(lay[ti], const(0)) in [elem(D, t2, i2) for t2 in range(n) for i2 in range(K)] or
                 lay[ti] not in c or tm.is_num_const(c[lay[ti]]) for ti in wrong):
            col.bad('objective', f, 'the weights %s are not multiplied by their distance' % wrong[:4])
        else:
            col.unk('objective', f, 'coefficients of %s: %s' % (wrong[:4], tm.show(c[lay[wrong[0]]])[:100]))
    # rows
    want = {frozenset([(lay[(t, i)], 1) for i in range(K)] + [('c', -1)]): t for t in range(n)}
    got = set()
    extra = []

    def key(r):
        return frozenset((k, num(v) if k != 'c' or tm.is_num_const(v) else v) for k, v in r.items())

    for r in eqs:
        k = key(r)
        neg = frozenset((a, -b) for a, b in k if not isinstance(b, Term))
        if k in want or neg in want:
            got.add(want.get(k, want.get(neg)))
        elif r:
            extra.append(('==', r))
    miss = sorted(set(range(n)) - got)
    col.decide(not miss, 'row-sum', f, 'samples without unit sum: %s' % miss if miss else '%d samples' % n)
    # inequalities
    nonneg, diffs, sums = set(lay.values()) if ln.nonneg else set(), {}, []
    for r in les:
        vs = {k: v for k, v in r.items() if k != 'c'}
        cst = r.get('c')
        if not vs:
            if cst is None or prove.prove_ge0(s_neg(cst)):
                continue
            raise Unknown('constant constraint %s' % r)
        if len(vs) == 1:
            (j, co), = vs.items()
            if num(co) < 0 and cst is None:
                nonneg.add(j)
                continue
            if num(co) > 0 and j in inv and cst is not None and tm.is_num_const(cst) and num(cst) <= -num(co):
                continue                                   # weight <= 1 or more: implied
        if len(vs) == 3 and cst is None:
            ws = [j for j in vs if j in inv]
            au = [j for j in vs if j not in inv]
            if len(ws) == 2 and len(au) == 1 and num(vs[au[0]]) == -1:
                (a, b) = sorted(ws, key=lambda j: num(vs[j]))
                if num(vs[a]) == -1 and num(vs[b]) == 1:
                    (t1, i1), (t2, i2) = inv[a], inv[b]
                    if i1 == i2 and abs(t1 - t2) == 1:
                        diffs.setdefault((min(t1, t2), i1), {}).setdefault(au[0], set()).add(t1 < t2)
                        continue
        if all(j not in inv for j in vs) and all(num(v) == 1 for v in vs.values()):
            sums.append((frozenset(vs), s_neg(cst) if cst is not None else const(0)))
            continue
        extra.append(('<=', r))
    miss = sorted(lay[k] for k in lay if lay[k] not in nonneg)
    col.decide(not miss, 'non-negative', f, 'weights without lower bound: %s' % [inv[j] for j in miss][:6] if miss else
               '%d weights' % len(lay))
    aux = {}
    if tv is None:
        if diffs:
            extra.append(('tv', diffs))
    else:
        missing = []
        for t in range(n - 1):
            for i in range(K):
                full = [j for j, sg in diffs.get((t, i), {}).items() if sg == {True, False}]
                if len(full) != 1 or len(diffs[(t, i)]) != 1:
                    missing.append((t, i))
                else:
                    aux[(t, i)] = full[0]
        if len(set(aux.values())) != len(aux):
            missing.append('an auxiliary variable serves several differences')
        col.decide(not missing, 'dominate', f, 'not dominated: %s' % missing[:6] if missing else
                   '%d successive differences' % len(aux))
        if not missing:
            bad = []
            for i in range(K):
                own = frozenset(aux[(t, i)] for t in range(n - 1))
                b = [c for v, c in sums if v == own]
                if not b:
                    bad.append(i)
                elif not all(prove.prove_eq(q, tv) for q in b):
                    bad.append((i, [tm.show(q)[:60] for q in b]))
            sums_extra = [v for v, c in sums if not any(v == frozenset(aux[(t, i)] for t in range(n - 1))
                                                        for i in range(K))]
            col.decide(not bad, 'bound', f, 'components not bounded by max_tv_norm: %s' % bad if bad else
                       '%d components' % K)
            if sums_extra:
                extra.append(('sum', sums_extra))
    if tv is None and sums:
        extra.append(('sum', sums))
    col.decide(not extra, 'nothing else', f, 'further constraints: %s' % str(extra[:2])[:300] if extra else
               '%d rows' % (len(eqs) + len(les)))


def main(tier):
    return run('C15', analyse, configs(tier), RULES,
               'Constant propagation through the construction of the linear program for a grid of sizes (symbolic data, '
               'centroids and bound): the constraint matrices become constants of the analysis and are compared, row by '
               'row and up to order and scaling, with the intended constraints in the layout given by the read-back.', tier,
               assumptions=['sizes are a grid of small numbers of samples and components; the construction treats all '
                            'samples and components alike'],
               need=('objective', 'row-sum', 'non-negative', 'dominate', 'bound', 'nothing else'))
