"""Normal forms of matrix expressions: linear combinations of words in matrix letters, and polynomials in traces.

A matrix is {word: coefficient}; a word is a tuple of letters (term id, transposed); one-dimensional arrays are columns.
A scalar is {(trace word, ...): coefficient}.  Coefficients are scalar terms of the value graph.  Two expressions with the
same normal form are equal for all matrices; derivatives are taken letter by letter."""
from . import terms as tm
from . import arrays as ar
from . import prove
from .terms import Term, const, s_add, s_sub, s_mul, s_neg

ONE, ZERO = const(1), const(0)
BYID = {}


class Hard(Exception):
    """Not expressible in normal form."""


class Order(Hard):
    """The order of two bounds is not known."""


def madd(a, b, f=ONE):
    out = dict(a)
    for w, c in b.items():
        v = s_add(out[w], s_mul(c, f)) if w in out else s_mul(c, f)
        if v is ZERO:
            out.pop(w, None)
        else:
            out[w] = v
    return out


def prune(a):
    """Drop words whose coefficient is provably zero."""
    return {w: c for w, c in a.items() if not prove.prove_eq(c, ZERO)}


def mscale(a, f):
    return {w: s_mul(c, f) for w, c in a.items()}


def letter(t, tr=False):
    BYID[t.id] = t
    if symmetric(t):
        tr = False
    return (t.id, tr)


def symmetric(t):
    if t.op in ('diag', 'eye'):
        return True
    return t.op == 'atom' and bool(tm.meta(t).get('symmetric'))


def ones_col(n):
    return letter(tm.intern('onescol', (n,), (n, ONE)))


def shift(lo, off, nr, nc):
    """Letter for the nr x nc matrix with ones at (a, a + off) for lo <= a < min(nr, nc - off); None when it is empty."""
    if prove.prove_ge0(s_neg(lo)):
        lo = ZERO
    if prove.prove_ge0(s_sub(s_neg(off), lo)):          # a + off >= 0
        lo = s_neg(off)
    if prove.prove_ge0(s_sub(lo, nr)) or prove.prove_ge0(s_sub(s_add(lo, off), nc)):
        return None
    return letter(tm.intern('shift', (lo, off, nr, nc), (nr, nc)))


def sel(lo, hi, n):
    """Normal form of the matrix that selects the rows lo..hi-1 of n rows."""
    if prove.prove_eq(lo, ZERO) and prove.prove_eq(hi, n):
        return {(): ONE}
    l = shift(ZERO, lo, s_sub(hi, lo), n)
    return {(l,): ONE} if l is not None else {}


def shift_of(l):
    """(lo, off, nr, nc) of a shift letter, transposed if it is."""
    lo, off, nr, nc = BYID[l[0]].args
    if not l[1]:
        return lo, off, nr, nc
    return s_add(lo, off), s_neg(off), nc, nr


def shift_mul(l1, l2):
    """Product of two shift letters: {word: coefficient}."""
    a, o1, nr, nm = shift_of(l1)
    b, o2, nm2, nc = shift_of(l2)
    o = s_add(o1, o2)
    b = s_sub(b, o1)
    lo = a if prove.prove_ge0(s_sub(a, b)) else b if prove.prove_ge0(s_sub(b, a)) else None
    if lo is None:
        raise Order((a, b))
    up = s_sub(nm, o1)                                   # a < nm - o1
    out = {}
    w = shift_word(lo, o, nr, nc)
    if w is not None:
        out[w] = ONE
    if not (prove.prove_ge0(s_sub(up, nr)) or prove.prove_ge0(s_sub(up, s_sub(nc, o)))):
        if not prove.prove_ge0(s_sub(up, lo)):
            if prove.prove_ge0(s_sub(lo, up)):
                return {}
            raise Order((up, lo))
        for lim in (nr, s_sub(nc, o)):
            if not prove.prove_ge0(s_sub(lim, up)):
                raise Order((lim, up))
        v = shift_word(up, o, nr, nc)
        if v is not None:
            out = madd(out, {v: const(-1)})
    return out


def shift_word(lo, off, nr, nc):
    l = shift(lo, off, nr, nc)
    if l is None:
        return None
    lo, off, nr, nc = BYID[l[0]].args
    if prove.prove_eq(off, ZERO) and prove.prove_eq(lo, ZERO) and prove.prove_eq(nr, nc):
        return ()
    return (canonical_shift(l),)


def canonical_shift(l):
    """A square shift up is written as the transpose of the shift down, so that a matrix has one letter."""
    return l


def tword(w):
    return tuple(norm_letter((i, tr if symmetric(BYID[i]) else not tr)) for i, tr in reversed(w))


def is_shift(l):
    return BYID[l[0]].op == 'shift'


def reduce_word(w):
    """Normal form {word: coefficient} of a word: e'e and products of shifts are worked out."""
    for i, l in enumerate(w):
        p = BYID[l[0]]
        if p.op == 'onescol' and len(w) > 1 and ar.is_one(p.args[0]):
            return reduce_word(w[:i] + w[i + 1:])
    for i in range(len(w) - 1):
        l, m = w[i], w[i + 1]
        p, q = BYID[l[0]], BYID[m[0]]
        new = None
        if p is q and p.op == 'onescol' and l[1] and not m[1]:
            new = {(): p.args[0]}
        elif p.op == 'shift' and q.op == 'shift':
            new = shift_mul(l, m)
        elif p.op == 'diag' and q.op == 'onescol' and not m[1]:
            new = diag_ones(p)
        elif p.op == 'onescol' and l[1] and q.op == 'diag':
            new = diag_ones(q)
            new = mT(new) if new is not None else None
        elif p is q and p.op == 'rowsel' and not l[1] and m[1]:
            new = {(): ONE}
        elif p.op == 'rowsel' and q.op == 'onescol' and not l[1] and not m[1]:
            new = {(ones_col(p.shape[0]),): ONE}
        elif p.op == 'shift' and q.op == 'onescol' and not m[1] and full_rows(l):
            new = {(ones_col(shift_of(l)[2]),): ONE}
        elif p.op == 'onescol' and q.op == 'shift' and l[1] and full_rows((m[0], not m[1])):
            o = ones_col(shift_of((m[0], not m[1]))[2])
            new = {((o[0], True),): ONE}
        if new is not None:
            out = {}
            for v, c in new.items():
                out = madd(out, mscale(reduce_word(w[:i] + v + w[i + 2:]), c))
            return out
    return {w: ONE}


def diag_ones(d):
    """diag(v) e = v, when v has a letter of its own."""
    v = d.args[0]
    if v.op not in ('atom', 'phi') or v.shape is None or len(v.shape) != 1:
        return None
    return matrix(ar.index(v, (('a',), ('n',))))


def full_rows(l):
    """Does every row of a shift hold a one?"""
    lo, off, nr, nc = shift_of(l)
    return prove.prove_eq(lo, ZERO) and prove.prove_ge0(s_sub(s_sub(nc, off), nr))


def mmul(a, b):
    out = {}
    for w, c in a.items():
        for v, d in b.items():
            out = madd(out, mscale(reduce_word(w + v), s_mul(c, d)))
    return out


def mT(a):
    return {tword(w): c for w, c in a.items()}


def canon(w):
    """The trace of a word as {representative: coefficient}."""
    for i in range(len(w)):
        r = w[i:] + w[:i]
        d = reduce_word(r)
        if d != {r: ONE}:
            out = {}
            for v, c in d.items():
                out = madd(out, mscale(canon(v), c))
            return out
    if not w:
        return {w: ONE}
    best = None
    for v in (w, tword(w)):
        v = tuple(norm_letter(l) for l in v)
        for i in range(len(v)):
            r = v[i:] + v[:i]
            if best is None or r < best:
                best = r
    return {best: ONE}


def norm_letter(l):
    """A shift that is the transpose of a shift has one name."""
    if not is_shift(l) or not l[1]:
        return l
    n = shift(*shift_of(l))
    return n if n is not None else l


def _dims(w, n):
    return n


def trace(a, n):
    """Trace of a matrix in normal form with n rows: scalar."""
    out = {}
    for w, c in a.items():
        for v, f in canon(w).items():
            out = madd(out, {((v,) if v else ()): s_mul(s_mul(c, f), ONE if v else n)})
    return out


def trace1(w, n):
    return n if not w else ONE


def smul(a, b):
    out = {}
    for w, c in a.items():
        for v, d in b.items():
            out = madd(out, {tuple(sorted(w + v)): s_mul(c, d)})
    return out


def is_matrix(t):
    return t.shape is not None and len(t.shape) in (1, 2)


_M, _S = {}, {}


def matrix(t):
    """Normal form of a one- or two-dimensional array."""
    r = _M.get(t)
    if r is None:
        r = _M[t] = _matrix(t)
    return r


def opaque(t):
    return {(letter(t),): ONE}


def _matrix(t):
    if not is_matrix(t):
        raise Hard('shape of %s' % t.op)
    op, sh = t.op, t.shape
    if op == 'lin':
        out = {}
        for k, c in t.args[0]:
            out = madd(out, mscale(matrix(k), c))
        return out
    if op == 'ones':
        if len(sh) == 1:
            return {(ones_col(sh[0]),): ONE}
        o = ones_col(sh[1])
        return {(ones_col(sh[0]), (o[0], True)): ONE}
    if op == 'full':
        return mscale(_matrix(tm.intern('ones', (tuple(sh),), tuple(sh))), t.args[1])
    if op == 'eye':
        return {(): ONE}
    if op == 'T':
        return mT(matrix(t.args[0]))
    if op == 'dot':
        a, b = t.args
        A, B = matrix(a), matrix(b)
        if len(a.shape) == 1 and len(b.shape) == 2:
            return mmul(mT(B), A)
        return mmul(A, B)
    if op == 'bcast':
        a = t.args[0]
        if a.shape is not None and len(sh) == 2:
            if len(a.shape) == 2 and ar.is_one(a.shape[1]) and not ar.is_one(sh[1]):
                o = ones_col(sh[1])
                return mmul(matrix(a), {((o[0], True),): ONE})
            if len(a.shape) == 2 and ar.is_one(a.shape[0]):
                return mmul({(ones_col(sh[0]),): ONE}, matrix(a))
            if len(a.shape) == 1:
                return mmul({(ones_col(sh[0]),): ONE}, mT(matrix(a)))
        return opaque(t)
    if op == 'sum' and len(sh) == 1 and is_matrix(t.args[0]):
        a, axes = t.args
        if axes == (1,):
            return mmul(matrix(a), {(ones_col(a.shape[1]),): ONE})
        if axes == (0,):
            return mmul(mT(matrix(a)), {(ones_col(a.shape[0]),): ONE})
    if op == 'index':
        a, ix = t.args
        r = _picked(a, ix, sh)
        if r is not None:
            return r
        if a.op == 'lin':
            out = {}
            for k, c in a.args[0]:
                out = madd(out, mscale(matrix(ar.index(k, ix)), c))
            return out
        return opaque(t)
    if op == 'store':
        a, ix, v = t.args
        if len(ix) == len(sh) == 2 and ix[0][0] == 'a' and ix[1][0] in ('s', 'i') and len(ix[1]) < 4:
            lo, hi = (ix[1][1], ix[1][2]) if ix[1][0] == 's' else (ix[1][1], s_add(ix[1][1], ONE))
            s_ = sel(lo, hi, sh[1])
            if v.shape == ():
                v = ar.full((sh[0], s_sub(hi, lo)), v)
            A = matrix(a)
            keep = madd(A, mmul(A, mmul(mT(s_), s_)), const(-1))
            return madd(keep, mmul(matrix(v), s_))
        rows = row_selection(ix, sh)
        if rows is not None:
            s_, n = rows
            st = mT(s_)
            if v.shape == ():
                v = ar.full(((n,) if ix[0][0] != 'i' else ()) + tuple(sh[1:]), v)
            if v.shape == ():
                V = mscale({(ones_col(ONE),): ONE}, v)
            elif len(v.shape) == 1 and ix[0][0] == 'i':
                V = mT(matrix(v))
            elif len(v.shape) == len(sh):
                V = matrix(v)
            else:
                return opaque(t)
            A = matrix(a)
            keep = madd(A, mmul(mmul(st, s_), A), const(-1))
            return madd(keep, mmul(st, V))
        return opaque(t)
    if op == 'cat' and len(sh) == 2:
        ps, axis = t.args
        out, lo = {}, ZERO
        for q in ps:
            hi = s_add(lo, q.shape[axis])
            s_ = sel(lo, hi, sh[axis])
            out = madd(out, mmul(matrix(q), s_) if axis == 1 else mmul(mT(s_), matrix(q)))
            lo = hi
        return out
    if op == 'stack' and len(sh) == 2 and all(len(q.shape) == 1 for q in t.args[0]):
        out = {}
        for i, q in enumerate(t.args[0]):
            out = madd(out, mmul(mT(sel(const(i), const(i + 1), sh[0])), mT(matrix(q))))
        return out
    if op == 'mul' and len(t.args[0]) == 2 and len(sh) == 2:
        for a, b in (t.args[0], t.args[0][::-1]):
            c = column(a)
            if c is not None:
                return mmul({(letter(diag_of(c)),): ONE}, matrix(b))
        return hadamard(*t.args[0])
    if op == 'ew' and t.args[0] in ('pow2', 'square') and len(sh) == 2:
        return hadamard(t.args[1], t.args[1])
    if op == 'mul' and len(sh) == 1 and len(t.args[0]) == 2 and all(len(f.shape) == 1 for f in t.args[0]):
        a, b = t.args[0]
        return mmul({(letter(diag_of(a)),): ONE}, matrix(b))
    return opaque(t)


def column(t):
    """The vector repeated in every column of t."""
    if t.op == 'index' and t.args[0].shape is not None and len(t.args[0].shape) == 1 and t.args[1] == (('a',), ('n',)):
        return t.args[0]
    if t.op == 'bcast':
        a = t.args[0]
        if a.op == 'index' and a.args[0].shape is not None and len(a.args[0].shape) == 1 and a.args[1] == (('a',), ('n',)):
            return a.args[0]
        if a.shape is not None and len(a.shape) == 2 and ar.is_one(a.shape[1]):
            return ar.index(a, (('a',), ('i', ZERO)))
    return None


def hadamard(a, b):
    """Element by element product: one letter, named by the normal forms of the factors."""
    ks = sorted((tuple(sorted(prune(matrix(q)).items(), key=lambda e: str(e[0]))) for q in (a, b)), key=str)
    return {(letter(tm.intern('had', tuple(ks), tuple(a.shape))),): ONE}


def diag_of(v):
    return tm.intern('diag', (v,), (v.shape[0], v.shape[0]))


def mask_of(m, n):
    """Letter of the matrix that selects the rows of a mask."""
    return tm.intern('rowsel', (m,), (n, m.shape[0]))


def row_selection(ix, sh):
    """(normal form of the selection of rows, number of rows) for an index that only selects rows."""
    if len(ix) != len(sh) or any(e[0] != 'a' for e in ix[1:]):
        return None
    e = ix[0]
    if e[0] == 's' and len(e) == 3:
        return sel(e[1], e[2], sh[0]), s_sub(e[2], e[1])
    if e[0] == 'i':
        return sel(e[1], s_add(e[1], ONE), sh[0]), ONE
    if e[0] == 'mask':
        n = tm.intern('count', (e[1],), ())
        return {(letter(mask_of(e[1], n)),): ONE}, n
    return None


def _picked(a, ix, sh):
    """Normal form of a selection of rows or columns of a matrix."""
    if a.op == 'reshape' and len(a.shape) == 3 and ix[0][0] == 'i' and all(e[0] == 'a' for e in ix[1:]):
        m = a.args[0]                                    # consecutive blocks of rows
        if len(m.shape) == 2 and prove.prove_eq(m.shape[1], a.shape[2]) and prove.prove_eq(m.shape[0], s_mul(a.shape[0], a.shape[1])):
            lo = s_mul(ix[0][1], a.shape[1])
            return mmul(sel(lo, s_add(lo, a.shape[1]), m.shape[0]), matrix(m))
        return None
    if a.op == 'reshape' and len(a.shape) == 3 and ix[1][0] == 'i' and ix[0][0] == ix[2][0] == 'a':
        m = a.args[0]                                    # every a.shape[1]-th row
        if len(m.shape) == 2 and prove.prove_eq(m.shape[1], a.shape[2]) and prove.prove_eq(m.shape[0], s_mul(a.shape[0], a.shape[1])):
            if ar.is_one(a.shape[1]):
                return matrix(m)
            l = letter(tm.intern('stride', (ix[1][1], a.shape[1]), (a.shape[0], m.shape[0])))
            return mmul({(l,): ONE}, matrix(m))
        return None
    if a.shape is not None and len(a.shape) == 1 and ix in ((('n',), ('a',)), (('a',), ('n',))):
        return matrix(a) if ix[0][0] == 'a' else mT(matrix(a))
    if not is_matrix(a) or len(ix) != len(a.shape):
        return None
    rows = row_selection(ix, a.shape)
    if rows is not None:
        if ix[0][0] == 'i':
            return mT(mmul(rows[0], matrix(a))) if len(a.shape) == 2 else None
        return mmul(rows[0], matrix(a))
    if len(ix) == 2 and ix[0][0] == 'a':
        e = ix[1]
        if e[0] == 's' and len(e) == 3:
            return mmul(matrix(a), mT(sel(e[1], e[2], a.shape[1])))
        if e[0] == 'i':
            return mmul(matrix(a), mT(sel(e[1], s_add(e[1], ONE), a.shape[1])))
    return None


def scalar(t):
    """Normal form of a scalar term."""
    r = _S.get(t)
    if r is None:
        r = _S[t] = _scalar(t)
    return r


def _scalar(t):
    if t.op in ('poly', 'const'):
        out = {}
        for m, c in tm.to_poly(t).items():
            r = {(): const(c)}
            for f, e in m:
                if f.op in ('trace', 'sum', 'index', 'dot') and isinstance(e, int) and 0 < e <= 2:
                    for _ in range(e):
                        r = smul(r, scalar(f))
                elif f.op in ('trace', 'sum', 'dot', 'sqrt') and not isinstance(e, Term):
                    v = tuple(sorted(prune(scalar(f.args[0] if f.op == 'sqrt' else f)).items(), key=lambda q: str(q[0])))
                    v = tm.intern('val', (v,), ())
                    r = smul(r, {(): tm.s_pow(tm.intern('sqrt', (v,), ()) if f.op == 'sqrt' else v, const(e))})
                else:
                    r = smul(r, {(): tm.s_pow(f, const(e)) if not isinstance(e, Term) else tm.s_pow(f, e)})
            out = madd(out, r)
        return out
    if t.op == 'trace':
        return trace(matrix(t.args[0]), t.args[0].shape[0])
    if t.op == 'sum' and t.args[1] is None:
        return total(t.args[0])
    if t.op == 'dot' and t.shape == ():
        return total(ar.mul(t.args[0], t.args[1])) if False else inner(t.args[0], t.args[1])
    if t.op == 'index' and t.args[0].op == 'lin':
        out = {}
        for k, c in t.args[0].args[0]:
            out = madd(out, smul(scalar(ar.index(k, t.args[1])), {(): c}))
        return out
    return {(): t}


def constlen(t):
    return t.shape is not None and len(t.shape) in (1, 3) and t.shape[0].op == 'const'


def pick(t, i):
    return ar.index(t, (('i', const(i)),) + tuple(('a',) for _ in t.shape[1:]))


def inner(a, b):
    """Sum of the elementwise product."""
    if constlen(a) and constlen(b):
        out = {}
        for i in range(tm.cval(a.shape[0])):
            x, y = pick(a, i), pick(b, i)
            out = madd(out, smul(scalar(x), scalar(y)) if x.shape == () else inner(x, y))
        return out
    A, B = matrix(a), matrix(b)
    return trace(mmul(mT(A), B), a.shape[1] if len(a.shape) == 2 else ONE)


def total(t):
    """Sum of all elements of an array."""
    if t.op == 'lin':
        out = {}
        for k, c in t.args[0]:
            out = madd(out, mscale(total(k), c))
        return out
    if t.op == 'mul' and len(t.args[0]) == 2 and all(f.shape is not None and len(f.shape) == len(t.shape) for f in t.args[0]):
        return inner(*t.args[0])
    if constlen(t):
        out = {}
        for i in range(tm.cval(t.shape[0])):
            x = pick(t, i)
            out = madd(out, scalar(x) if x.shape == () else total(x))
        return out
    if t.op == 'ew' and t.args[0] in ('pow2', 'square'):
        return inner(t.args[1], t.args[1])
    if not is_matrix(t):
        return {(): tm.intern('sum', (t, None), ())}
    return inner(tm.intern('ones', (tuple(t.shape),), tuple(t.shape)), t)


def seq(a, b):
    """Are two scalar normal forms equal?"""
    return not sdiff(a, b)


def sdiff(a, b):
    return prune(madd(a, b, const(-1)))


def meq(a, b):
    return not prune(madd(a, b, const(-1)))


def letters(nf):
    return {l[0] for ws in nf for w in (ws if ws and isinstance(ws[0], tuple) and ws[0] and isinstance(ws[0][0], tuple) else (ws,))
            for l in w}


def sletters(nf):
    return {BYID[l[0]] for ws in nf for w in ws for l in w}


def gradient(nf, p):
    """Matrix normal form of the derivative of a scalar normal form with respect to the array p (a letter)."""
    out = {}
    for ws, c in nf.items():
        if p in tm.free_atoms(c) and p.op == 'atom':
            raise Hard('%s occurs in a coefficient' % tm.show(p))
        if len(ws) > 1 and any(any(BYID[l[0]] is p for l in w) for w in ws):
            raise Hard('product of traces')
        for w in ws:
            for l in w:
                q = BYID[l[0]]
                if q is not p and p in tm.free_atoms(q):
                    raise Hard('%s occurs inside %s' % (tm.show(p), q.op))
            for i, l in enumerate(w):
                if BYID[l[0]] is p:
                    rest = w[i + 1:] + w[:i]
                    out = madd(out, mscale(reduce_word(rest if l[1] else tword(rest)), c))
    return out


def derivative(nf, x):
    """Derivative of a scalar normal form with respect to a scalar term x that occurs in coefficients only."""
    out = {}
    for ws, c in nf.items():
        for w in ws:
            for l in w:
                if x in tm.subterms(BYID[l[0]]):
                    raise Hard('inside a matrix')
        p = tm.to_poly(c)
        for m, k in p.items():
            for f, e in m:
                if f is x:
                    rest = tm.from_poly({m: k})
                    d = s_mul(const(e), tm.s_mul(rest, tm.s_pow(x, const(-1))))
                    out = madd(out, {ws: d})
                elif x in tm.subterms(f):
                    raise Hard('inside a coefficient')
    return out


def show(nf, scalar_=True):
    def word(w):
        return '.'.join(tm.show(BYID[i], 3)[:40] + ("'" if tr else '') for i, tr in w) or 'I'
    out = []
    for ws, c in list(nf.items())[:12]:
        out.append('%s * %s' % (tm.show(c)[:80], ' '.join('tr(%s)' % word(w) for w in ws) if scalar_ else word(ws)))
    return ' + '.join(out) or '0'


def at(n, tau, v):
    """Value of a normal form with the scalar atom tau (in coefficients only) replaced by v."""
    out = {}
    for w, c in n.items():
        out = madd(out, {w: tm.subst(c, {tau: v})})
    return out


def dtau(n, tau):
    """Derivative at tau = 0 of a normal form that is polynomial in the scalar atom tau."""
    out = {}
    for ws, c in n.items():
        for w in ws:
            for l in w:
                if tau in tm.free_atoms(BYID[l[0]]):
                    raise Hard('the step occurs inside %s' % BYID[l[0]].op)
        r = {}
        for m, k in tm.to_poly(c).items():
            es = [e for f, e in m if f is tau]
            if any(tau in tm.free_atoms(f) for f, e in m if f is not tau):
                raise Hard('the step occurs inside a coefficient')
            if es and es[0] == 1:
                q = tuple((f, e) for f, e in m if f is not tau)
                r[q] = r.get(q, 0) + k
            elif es and es[0] < 0:
                raise Hard('division by the step')
        if r:
            out = madd(out, {ws: tm.from_poly(r)})
    return out


def fresh():
    """Forget normal forms (they depend on the facts in force)."""
    _M.clear()
    _S.clear()


def replace(n, mapping, scalar_):
    """Normal form with atoms replaced by other terms, inside letters and coefficients."""
    keys = frozenset(mapping)
    out = {}
    for k, c in n.items():
        cs = scalar(tm.subst(c, mapping)) if keys & tm.free_atoms(c) else {(): c}
        ws = k if scalar_ else (k,)
        acc = cs                                         # scalar factor
        mat = None
        for w in ws:
            m = {(): ONE}
            for i, l in enumerate(w):
                t = BYID[l[0]]
                if keys & tm.free_atoms(t):
                    v = matrix(tm.subst(t, mapping))
                    v = mT(v) if l[1] else v
                else:
                    v = {(l,): ONE}
                m = mmul(m, v) if i else v
            if scalar_:
                acc = smul(acc, trace(m, ONE))
            else:
                mat = m
        if scalar_:
            out = madd(out, acc)
        else:
            if any(q for q in acc if q):
                raise Hard('trace in a coefficient')
            for q, c2 in acc.items():
                out = madd(out, mscale(mat, c2))
    return out
