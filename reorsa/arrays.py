"""Array-level term constructors with symbolic shapes and the simplifications that make equal values get
equal terms.  Every constructor takes and returns Terms; shapes are tuples of scalar Terms, or None if unknown."""
from fractions import Fraction
from . import terms as tm
from .terms import (Term, intern, const, is_const, cval, is_num_const, to_poly, from_poly, s_add, s_sub, s_mul,
                    s_neg, s_div, s_pow, REBUILD)
from . import prove
from .prove import prove_ge0, prove_eq, prove_ne, prove_gt0

ONE, ZERO = const(1), const(0)
NONE = const(None)
ISSUES = []        # shape problems noticed while building (drained by the interpreter)


def issue(kind, **kw):
    ISSUES.append((kind, kw))


def is_scalar(t):
    return t.shape == ()


def ndim(t):
    return None if t.shape is None else len(t.shape)


def dim_eq(a, b):
    return a is b or prove_eq(a, b)


def is_one(d):
    return is_num_const(d) and tm.frac(cval(d)) == 1


def ext(name, args, shape=None):
    return intern('ext', (name, tuple(args)), shape)


# ------------------------------------------------------------------ linear combinations

def as_lin(t):
    """dict base-term -> scalar coefficient term, for an array term."""
    if t.op == 'lin':
        return dict(t.args[0])
    return {t: ONE}


def mk_lin(d, shape):
    d = {k: c for k, c in d.items() if not (is_num_const(c) and tm.frac(cval(c)) == 0)}
    if len(d) == 1:
        (k, c), = d.items()
        if is_num_const(c) and tm.frac(cval(c)) == 1:
            return k
    return intern('lin', (tuple(sorted(d.items(), key=lambda x: x[0].id)),), None if shape is None else tuple(shape)) \
        if d else zeros(shape)


def zeros(shape):
    return intern('lin', ((), ('shape',) + (tuple(shape) if shape is not None else (None,))), shape)


def is_zero(t):
    if t.op == 'lin' and not t.args[0]:
        return True
    return is_num_const(t) and tm.frac(cval(t)) == 0


def ones(shape):
    return intern('ones', (tuple(shape),), tuple(shape))


def full(shape, v):
    if v.shape == ():
        if v.op == 'const' and not is_num_const(v):
            return intern('full', (tuple(shape), v), tuple(shape))
        return mk_lin({ones(shape): v}, shape)
    return bcast(v, shape)


def empty(name, shape):
    return intern('empty', (name, tuple(shape)), tuple(shape))


def eye(n):
    return intern('eye', (n,), (n, n))


def bshape(sa, sb, what=None):
    """Broadcast two shapes."""
    if sa is None or sb is None:
        return None
    out = []
    la, lb = len(sa), len(sb)
    for i in range(max(la, lb)):
        a = sa[la - 1 - i] if i < la else ONE
        b = sb[lb - 1 - i] if i < lb else ONE
        if a is b:
            out.append(a)
        elif is_one(a):
            out.append(b)
        elif is_one(b):
            out.append(a)
        elif dim_eq(a, b):
            out.append(a)
        else:
            issue('broadcast', a=sa, b=sb, what=what)
            out.append(a)
    return tuple(reversed(out))


def same_shape(sa, sb):
    return sa is not None and sb is not None and len(sa) == len(sb) and all(dim_eq(a, b) for a, b in zip(sa, sb))


def bcast(t, shape):
    """t broadcast to shape."""
    if shape is None or t.shape is None:
        return t
    if t.shape == ():
        return full(shape, t)
    if same_shape(t.shape, shape):
        return t
    if t.op == 'lin':
        return mk_lin({bcast(k, shape): c for k, c in t.args[0]}, shape) if t.args[0] else zeros(shape)
    if t.op == 'ones':
        return ones(shape)
    if t.op == 'bcast':
        t = t.args[0]
        if same_shape(t.shape, shape):
            return t
    return intern('bcast', (t, tuple(shape)), tuple(shape))


def add(a, b):
    if a.shape == () and b.shape == ():
        return s_add(_num(a), _num(b))
    return lincomb([(a, ONE), (b, ONE)])


def sub(a, b):
    if a.shape == () and b.shape == ():
        return s_sub(_num(a), _num(b))
    return lincomb([(a, ONE), (b, const(-1))])


def neg(a):
    if a.shape == ():
        return s_neg(_num(a))
    return lincomb([(a, const(-1))])


def _num(t):
    return t


def lincomb(parts):
    shape = ()
    for t, c in parts:
        if t.shape is None:
            shape = None
            break
        shape = bshape(shape, t.shape, 'elementwise')
    if shape is None:
        return ext('lin', tuple(x for p in parts for x in p))
    if all(t.op == 'carr' or t.shape == () for t, c in parts) and any(t.op == 'carr' for t, c in parts):
        r = carr_map(lambda *xs: _sum_scal([s_mul(x, c) for x, (t, c) in zip(xs, parts)]), [t for t, c in parts], shape)
        if r is not None:
            return r
    d = {}
    for t, c in parts:
        tb = bcast(t, shape)
        for k, kc in as_lin(tb).items():
            v = s_mul(kc, c)
            d[k] = s_add(d[k], v) if k in d else v
    return mk_lin(d, shape)


def _sum_scal(xs):
    r = ZERO
    for x in xs:
        r = s_add(r, x)
    return r


def scale(a, s):
    if a.shape == ():
        return s_mul(a, s)
    if a.op == 'lin':
        return mk_lin({k: s_mul(c, s) for k, c in a.args[0]}, a.shape) if a.args[0] else a
    if a.op == 'carr':
        return carr([s_mul(x, s) for x in a.args[0]], a.shape)
    return mk_lin({a: s}, a.shape)


def single(t):
    """(coef, base) if t is a scaled single term, else (1, t)."""
    if t.op == 'lin' and len(t.args[0]) == 1:
        (k, c), = t.args[0]
        return c, k
    return ONE, t


def mul(a, b):
    if a.shape == () and b.shape == ():
        return s_mul(a, b)
    if a.shape == ():
        return scale(b, a)
    if b.shape == ():
        return scale(a, b)
    if a.shape is None or b.shape is None:
        return ext('mul', sorted((a, b)))
    shape = bshape(a.shape, b.shape, 'multiply')
    if a.op == 'carr' and b.op == 'carr':
        r = carr_map(lambda x, y: s_mul(x, y), [a, b], shape)
        if r is not None:
            return r
    a, b = bcast(a, shape), bcast(b, shape)
    ca, a = single(a)
    cb, b = single(b)
    if is_zero(a) or is_zero(b):
        return zeros(shape)
    c = s_mul(ca, cb)
    if a.op == 'ones':
        return scale(b, c)
    if b.op == 'ones':
        return scale(a, c)
    fs = (list(a.args[0]) if a.op == 'mul' else [a]) + (list(b.args[0]) if b.op == 'mul' else [b])
    fs.sort()
    r = intern('mul', (tuple(fs),), shape)
    # sqrt(x)*sqrt(x) = x
    if len(fs) == 2 and fs[0] is fs[1] and fs[0].op == 'ew' and fs[0].args[0] == 'sqrt':
        r = fs[0].args[1]
    return scale(r, c) if c is not ONE else r


def div(a, b):
    if b.shape == () and a.shape == ():
        return s_div(a, b)
    if b.shape == ():
        return scale(a, s_div(ONE, b))
    if a.shape is None or b.shape is None:
        return ext('div', (a, b))
    shape = bshape(a.shape, b.shape, 'divide')
    cb, b2 = single(b)
    return scale(mul(bcast(a, shape), recip(bcast(b2, shape))), s_div(ONE, cb)) if cb is not ONE else \
        mul(bcast(a, shape), recip(bcast(b, shape)))


def recip(b):
    if b.op == 'bcast':
        return bcast(recip(b.args[0]), b.shape)
    return intern('ew', ('recip', b), b.shape)


def power(a, e):
    if a.shape == () and e.shape != ():
        return ew('pow', a, e)
    if a.shape == ():
        if is_num_const(e) and tm.frac(cval(e)) == Fraction(1, 2):
            return sqrt(a)
        if a.op == 'sqrt' and is_num_const(e) and tm.frac(cval(e)) == 2:
            return a.args[0]
        return s_pow(a, e)
    if is_num_const(e):
        v = tm.frac(cval(e))
        if v == 2:
            return mul(a, a)
        if v == 1:
            return a
        if v == Fraction(1, 2):
            return sqrt(a)
        if v == -1:
            return recip(a)
    return ew('pow', a, e)


def sqrt(a):
    if a.shape == ():
        if is_num_const(a) and tm.frac(cval(a)) in (0, 1):
            return a
        return intern('sqrt', (a,), ())
    if a.op == 'bcast':
        return bcast(sqrt(a.args[0]), a.shape)
    return intern('ew', ('sqrt', a), a.shape)


def ew(name, *args):
    """Elementwise function; commutative names sort their arguments."""
    shape = ()
    for t in args:
        if t.shape is None:
            return ext(name, args)
        shape = bshape(shape, t.shape, name)
    if shape == ():
        return scalar_fn(name, *args)
    if all(t.op == 'carr' or t.shape == () for t in args) and any(t.op == 'carr' for t in args):
        r = carr_map(lambda *xs: scalar_fn(name, *xs), list(args), shape)
        if r is not None:
            return r
    args = [bcast(t, shape) for t in args]
    if all(t.op == 'bcast' for t in args):
        inner = [t.args[0] for t in args]
        if all(same_shape(t.shape, inner[0].shape) for t in inner):
            return bcast(ew(name, *inner), shape)
    if name in ('fmax', 'fmin', 'eq', 'ne', 'and', 'or'):
        args = sorted(args)
    if name in ('gt', 'ge'):
        name = {'gt': 'lt', 'ge': 'le'}[name]
        args = [args[1], args[0]]
    return intern('ew', (name,) + tuple(args), shape)


def toint(t):
    """Conversion to an integer type (towards zero)."""
    if t.shape is None:
        return ext('toint', (t,))
    if t.shape == ():
        if tm.is_num_const(t):
            return const(int(tm.cval(t)))
        return t if prove.is_int(t) else intern('toint', (t,), ())
    if all_int(t):
        return t
    return ew('toint', t)


def all_int(t):
    """Every entry is certainly an integer."""
    if t.op == 'carr':
        return all(e.shape == () and prove.is_int(e) for e in t.args[0])
    if t.op == 'bcast':
        return t.args[0].shape == () and prove.is_int(t.args[0]) or t.args[0].shape != () and all_int(t.args[0])
    return t.op in ('eye', 'arange', 'nonzero', 'argsort')


def scalar_fn(name, *args):
    if name == 'toint':
        return toint(args[0])
    if name in ('fmax', 'fmin'):
        return smax(args) if name == 'fmax' else smin(args)
    if name in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        return compare(name, args[0], args[1])
    if name == 'abs':
        return sabs(args[0])
    if name == 'isclose':
        a, b, rt, at = args
        if all(is_num_const(u) for u in args):
            a, b, rt, at = (tm.frac(cval(u)) for u in args)
            return const(abs(a - b) <= at + rt * abs(b))
        return intern('isclose', args, ())
    if name == 'recip':
        return s_div(ONE, args[0])
    if name == 'pow':
        return power(*args)
    return intern(name, tuple(args), ())


def sabs(a):
    if is_num_const(a):
        return const(abs(cval(a)))
    if prove_ge0(a, 1):
        return a
    n = s_neg(a)
    return intern('abs', (a if a.id < n.id else n,), ())


def smax(args):
    flat = []
    for a in args:
        for x in (a.args[0] if a.op == 'max' else (a,)):
            if x not in flat:
                flat.append(x)
    return _extremum(flat, 'max')


def smin(args):
    flat = []
    for a in args:
        for x in (a.args[0] if a.op == 'min' else (a,)):
            if x not in flat:
                flat.append(x)
    return _extremum(flat, 'min')


def _extremum(flat, op):
    keep = []
    for x in flat:
        dominated = False
        for y in flat:
            if y is x:
                continue
            d = s_sub(y, x) if op == 'max' else s_sub(x, y)
            if prove_ge0(d, 1) and not (prove_eq(x, y) and x.id < y.id):
                dominated = True
                break
        if not dominated:
            keep.append(x)
    keep = keep or flat[:1]
    if len(keep) == 1:
        return keep[0]
    return intern(op, (tuple(sorted(keep)),), ())


# ------------------------------------------------------------------ booleans

TRUE, FALSE = const(True), const(False)


def b_not(c):
    if c.op == 'const':
        return const(not cval(c))
    if c.op == 'not':
        return c.args[0]
    if c.op == 'ge0':
        # not (p >= 0)  <=>  -p > 0
        return gt0(s_neg(c.args[0]))
    if c.op == 'gt0x':
        return ge0(s_neg(c.args[0]))
    return intern('not', (c,), c.shape)


def ge0(p):
    """p >= 0 as a boolean term."""
    if is_num_const(p):
        return const(tm.frac(cval(p)) >= 0)
    if prove.is_int(p):
        # tighten constants with a common integer factor: keep it simple
        return intern('ge0', (p,), ())
    return intern('ge0', (p,), ())


def gt0(p):
    if is_num_const(p):
        return const(tm.frac(cval(p)) > 0)
    if prove.is_int(p):
        return intern('ge0', (s_sub(p, ONE),), ())
    return intern('not', (intern('ge0', (s_neg(p),), ()),), ())


def eq0(p):
    if is_num_const(p):
        return const(tm.frac(cval(p)) == 0)
    n = s_neg(p)
    return intern('eq0', (p if p.id <= n.id else n,), ())


def compare(op, a, b):
    if a.op == 'const' and b.op == 'const':
        x, y = cval(a), cval(b)
        try:
            return const(bool({'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y,
                               'eq': lambda: x == y, 'ne': lambda: x != y}[op]()))
        except TypeError:
            return ext('cmp_' + op, (a, b), ())
    for u, v in ((a, b), (b, a)):
        if u.op == 'const' and not is_num_const(u):
            x = cval(u)
            if isinstance(x, float) and op in ('lt', 'le', 'gt', 'ge'):
                # infinities
                pos = x > 0
                less = (u is b) == pos      # finite < inf
                return const(less if op in ('lt', 'le') else not less)
            if op in ('eq', 'ne'):
                k = intern('same', tuple(sorted((a, b))), ())
                k = _decide_same(u, v, k)
                return k if op == 'eq' else b_not(k)
            return ext('cmp_' + op, (a, b), ())
    if op == 'eq':
        return eq0(s_sub(a, b))
    if op == 'ne':
        return b_not(eq0(s_sub(a, b)))
    if op == 'lt':
        return gt0(s_sub(b, a))
    if op == 'gt':
        return gt0(s_sub(a, b))
    if op == 'le':
        return ge0(s_sub(b, a))
    return ge0(s_sub(a, b))


def _decide_same(c, v, k):
    """is v == the non-numeric constant c?"""
    x = cval(c)
    if v.op == 'const':
        return const(cval(v) == x)
    m = tm.meta(v)
    kind = m.get('kind')
    if v.op == 'poly' or kind in ('int', 'float', 'arr') or (v.shape is not None and v.shape != ()):
        if not isinstance(x, bool):
            return FALSE
    if kind == 'str' and not isinstance(x, str):
        return FALSE
    if kind == 'str' and x in m.get('not_in', ()):
        return FALSE
    if x is None and m.get('notnone'):
        return FALSE
    return k


def decide(c):
    """Truth value of a boolean term at the current point, or None."""
    if c.op == 'const':
        v = cval(c)
        return bool(v)
    ctx = prove.CUR[0]
    if c in ctx.truths:
        return ctx.truths[c]
    if c.op == 'not':
        r = decide(c.args[0])
        return None if r is None else not r
    if c.op == 'ge0':
        if prove_ge0(c.args[0]):
            return True
        if prove_gt0(s_neg(c.args[0])):
            return False
        return None
    if c.op == 'eq0':
        if prove_eq(c.args[0], ZERO):
            return True
        if prove_ne(c.args[0], ZERO):
            return False
        return None
    if c.op == 'and':
        rs = [decide(x) for x in c.args[0]]
        if any(r is False for r in rs):
            return False
        return True if all(r is True for r in rs) else None
    if c.op == 'or':
        rs = [decide(x) for x in c.args[0]]
        if any(r is True for r in rs):
            return True
        return False if all(r is False for r in rs) else None
    if c.op == 'ite':
        r0 = decide(c.args[0])
        if r0 is not None:
            return decide(c.args[1] if r0 else c.args[2])
        r1, r2 = decide(c.args[1]), decide(c.args[2])
        return r1 if r1 == r2 else None
    if c.op in ('atom', 'poly', 'phi', 'index', 'max', 'min', 'len', 'size'):
        if c.op == 'atom' and tm.meta(c).get('kind') in ('arr', 'str', 'any', 'bool'):
            return None
        # numeric truthiness
        r = decide(eq0(c))
        return None if r is None else not r
    return None


def b_and(cs):
    out = []
    for c in cs:
        if c.op == 'const':
            if not cval(c):
                return FALSE
            continue
        for x in (c.args[0] if c.op == 'and' else (c,)):
            if x not in out:
                out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else intern('and', (tuple(sorted(out)),), ())


def b_or(cs):
    out = []
    for c in cs:
        if c.op == 'const':
            if cval(c):
                return TRUE
            continue
        for x in (c.args[0] if c.op == 'or' else (c,)):
            if x not in out:
                out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else intern('or', (tuple(sorted(out)),), ())


def ite(c, a, b):
    if a is b:
        return a
    if c.op == 'const':
        return a if cval(c) else b
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return b_not(c)
    shape = a.shape if a.shape == b.shape else (a.shape if same_shape(a.shape, b.shape) else None)
    return intern('ite', (c, a, b), shape)


# ------------------------------------------------------------------ constant arrays

def carr(items, shape):
    """Array of known (constant) size with scalar entries, row major."""
    return intern('carr', (tuple(items), tuple(shape)), tuple(shape))


def cdims(shape):
    out = []
    for d in shape:
        if not (is_num_const(d) and isinstance(cval(d), int)):
            return None
        out.append(cval(d))
    return out


def carr_map(f, ts, shape):
    dims = cdims(shape)
    if dims is None:
        return None
    total = 1
    for d in dims:
        total *= d
    if total > 4000:
        return None
    items = []
    for k in range(total):
        idx = []
        r = k
        for d in reversed(dims):
            idx.append(r % d)
            r //= d
        idx = idx[::-1]
        items.append(f(*[_celem(t, idx) for t in ts]))
    return carr(items, shape)


def _celem(t, idx):
    if t.shape == ():
        return t
    nd = len(t.shape)
    sub_idx = idx[len(idx) - nd:]
    dims = cdims(t.shape)
    k = 0
    for i, d in zip(sub_idx, dims):
        k = k * d + (0 if d == 1 else i)
    return t.args[0][k]


def to_carr(t):
    """Expand zeros/ones/lin/arange of constant small size to an explicit constant array."""
    if t.op == 'carr':
        return t
    if t.shape is None:
        return None
    dims = cdims(t.shape)
    if dims is None or not dims:
        return None
    total = 1
    for d in dims:
        total *= d
    if total > 4000:
        return None
    if t.op == 'ones':
        return carr([ONE] * total, t.shape)
    if t.op == 'full':
        return carr([t.args[1]] * total, t.shape)
    if t.op == 'lin':
        parts = [(to_carr(k), c) for k, c in t.args[0]]
        if any(p[0] is None for p in parts):
            return None
        items = [ZERO] * total
        for p, c in parts:
            items = [s_add(x, s_mul(y, c)) for x, y in zip(items, p.args[0])]
        return carr(items, t.shape)
    if t.op == 'arange':
        lo, hi = t.args
        return carr([s_add(lo, const(i)) for i in range(dims[0])], t.shape)
    if t.op == 'eye':
        n = dims[0]
        return carr([ONE if i == j else ZERO for i in range(n) for j in range(n)], t.shape)
    if t.op == 'bcast':
        inner = to_carr(t.args[0])
        if inner is None:
            return None
        di = cdims(inner.shape)
        if len(di) > len(dims) or any(a not in (1, b) for a, b in zip(reversed(di), reversed(dims))):
            return None                               # shapes that do not fit (reported where they meet)
        return carr_map(lambda x: x, [inner], t.shape)
    if t.op == 'cat':
        pass
    items = []
    for k in range(total):
        ix, r = [], k
        for d in reversed(dims):
            ix.append(('i', const(r % d)))
            r //= d
        items.append(index(t, tuple(ix[::-1])))
    return carr(items, t.shape)


# ------------------------------------------------------------------ linear algebra

def T(a):
    if a.shape is not None and len(a.shape) < 2:
        return a
    if a.op == 'T':
        return a.args[0]
    if a.op in ('eye', 'diag'):
        return a
    sh = None if a.shape is None else tuple(reversed(a.shape))
    if a.op == 'ones':
        return ones(sh)
    if a.op == 'lin':
        c, k = single(a)
        if not a.args[0]:
            return zeros(sh)
        if k is not a:
            return scale(T(k), c)
    if a.op == 'atom' and tm.meta(a).get('symmetric') or a.op == 'ext' and a.args[0] == 'gram':
        return a
    if a.op == 'carr' and len(a.shape) == 2:
        r, c = cdims(a.shape)
        return carr([a.args[0][i * c + j] for j in range(c) for i in range(r)], sh)
    return intern('T', (a,), sh)


def dot(a, b):
    if a.shape == () or b.shape == ():
        return mul(a, b)
    if a.shape is None or b.shape is None:
        return ext('dot', (a, b))
    ca, a1 = single(a)
    cb, b1 = single(b)
    sa, sb = a.shape, b.shape
    ka = sa[-1]
    kb = sb[-2] if len(sb) > 1 else sb[-1]
    if not dim_eq(ka, kb):
        issue('dot', a=sa, b=sb)
    sh = tuple(sa[:-1]) + (tuple(sb[:-2]) + (sb[-1],) if len(sb) > 1 else ())
    if is_zero(a) or is_zero(b):
        return zeros(sh) if sh else ZERO
    if a1.op == 'eye':
        return scale(b1, s_mul(ca, cb))
    if b1.op == 'eye':
        return scale(a1, s_mul(ca, cb))
    c = s_mul(ca, cb)
    if sh == ():
        r = reduce_sum(mul(a1, b1), None)
        return s_mul(r, c)
    # vector . matrix  ->  keep a canonical orientation: matrix . vector
    if len(sa) == 1 and len(sb) == 2:
        r = intern('dot', (T(b1), a1), sh)
    else:
        r = intern('dot', (a1, b1), sh)
    return scale(r, c)


def trace(a):
    if a.shape is not None and len(a.shape) == 2 and not dim_eq(a.shape[0], a.shape[1]):
        issue('trace', a=a.shape, b=())
    c, k = single(a)
    if is_zero(a):
        return ZERO
    if k.op == 'eye':
        return s_mul(c, k.args[0])
    if k.op == 'diag':
        return s_mul(c, reduce_sum(k.args[0], None))
    if k.op == 'T':
        k = k.args[0]
    return s_mul(c, intern('trace', (k,), ()))


def norm_axis(axis, nd):
    return axis + nd if axis < 0 else axis


def reduce_sum(a, axis, keepdims=False):
    if a.shape is None:
        return ext('sum', (a,), () if axis is None else None)
    if a.shape == ():
        return a
    nd = len(a.shape)
    if axis is None:
        axes = tuple(range(nd))
    else:
        axes = tuple(sorted(norm_axis(x, nd) for x in (axis if isinstance(axis, tuple) else (axis,))))
    if any(x >= nd or x < 0 for x in axes):
        issue('axis', a=a.shape, b=axes)
        axes = tuple(x for x in axes if 0 <= x < nd)
    sh = tuple(d for i, d in enumerate(a.shape) if i not in axes)
    c, k = single(a)
    if k.op == 'sum' and k.args[1] is not None and not sh and not keepdims and not is_zero(a):
        return s_mul(c, reduce_sum(k.args[0], None))
    if is_zero(a):
        r = zeros(sh) if sh else ZERO
    elif k.op == 'ones':
        n = ONE
        for x in axes:
            n = s_mul(n, k.shape[x])
        r = scale(ones(sh), s_mul(c, n)) if sh else s_mul(c, n)
    elif k.op == 'carr' and len(axes) == nd:
        r = s_mul(c, _sum_scal(list(k.args[0])))
    elif k.op == 'carr' and nd == 2 and len(axes) == 1:
        m, n = cdims(k.shape)
        it = k.args[0]
        rows = [it[i * n:(i + 1) * n] for i in range(m)] if axes[0] == 1 else [it[j::n] for j in range(n)]
        r = scale(carr([_sum_scal(list(q)) for q in rows], sh), c)
    elif k.op == 'carr' and nd == 3 and len(axes) == 1:
        l, m, n = cdims(k.shape)
        it = k.args[0]
        dims = [l, m, n]
        keep = [i for i in range(3) if i != axes[0]]
        out = []
        for u in range(dims[keep[0]]):
            for v in range(dims[keep[1]]):
                q = []
                for w in range(dims[axes[0]]):
                    ix = [0, 0, 0]
                    ix[keep[0]], ix[keep[1]], ix[axes[0]] = u, v, w
                    q.append(it[(ix[0] * m + ix[1]) * n + ix[2]])
                out.append(_sum_scal(q))
        r = scale(carr(out, sh), c)
    else:
        if k.op == 'T' and len(axes) == nd:
            k = k.args[0]
        elif k.op == 'T' and nd == 2 and len(axes) == 1:
            k, axes = k.args[0], (1 - axes[0],)
        r = scale(intern('sum', (k, axes if len(axes) < nd else None), sh), c)
    if keepdims:
        full_sh = tuple(ONE if i in axes else d for i, d in enumerate(a.shape))
        return reshape_ix(r, a.shape, axes, full_sh)
    return r


def reshape_ix(r, shape, axes, full_sh):
    ix = tuple(('n',) if i in axes else ('a',) for i in range(len(shape)))
    if r.shape == ():
        return full(full_sh, r)
    return index(r, ix)


def diag(a):
    """np.diag: vector -> matrix, matrix -> vector."""
    if a.shape is None:
        return ext('diag', (a,))
    if len(a.shape) == 1:
        c, k = single(a)
        if k.op == 'ones':
            return scale(eye(a.shape[0]), c)
        return scale(intern('diag', (k,), (a.shape[0], a.shape[0])), c)
    return diagonal(a)


def diagonal(a):
    if a.shape is None or len(a.shape) != 2:
        return ext('diagonal', (a,))
    c, k = single(a)
    if k.op == 'diag':
        return scale(k.args[0], c)
    if k.op == 'eye':
        return scale(ones((k.args[0],)), c)
    if k.op == 'T':
        k = k.args[0]
    return scale(intern('diagonal', (k,), (a.shape[0],)), c)


# ------------------------------------------------------------------ concatenation along an axis

def cat(parts, axis=0):
    if any(p.shape is None for p in parts):
        return ext('cat%d' % axis, parts)
    nd = len(parts[0].shape)
    axis = norm_axis(axis, nd)
    flat = []
    for p in parts:
        if p.op == 'cat' and p.args[1] == axis:
            flat.extend(p.args[0])
        else:
            flat.append(p)
    flat = [p for p in flat if not (is_num_const(p.shape[axis]) and tm.frac(cval(p.shape[axis])) == 0)] or flat[:1]
    tot = ZERO
    for p in flat:
        if len(p.shape) != nd:
            issue('concatenate', a=flat[0].shape, b=p.shape)
            return ext('cat%d' % axis, parts)
        for i in range(nd):
            if i != axis and not dim_eq(p.shape[i], flat[0].shape[i]):
                issue('concatenate', a=flat[0].shape, b=p.shape)
        tot = s_add(tot, p.shape[axis])
    sh = tuple(tot if i == axis else d for i, d in enumerate(flat[0].shape))
    # merge neighbouring slices of the same array
    merged = [flat[0]]
    for p in flat[1:]:
        q = merged[-1]
        m = _merge_slices(q, p, axis)
        if m is not None:
            merged[-1] = m
        else:
            merged.append(p)
    if len(merged) == 1:
        return merged[0]
    cs = [to_carr(p) for p in merged]
    if all(c is not None for c in cs) and nd == 1:
        return carr([x for c in cs for x in c.args[0]], sh)
    if all(c is not None for c in cs) and nd == 2:
        if axis == 0:
            return carr([x for c in cs for x in c.args[0]], sh)
        rows = cval(sh[0])
        out = []
        for r in range(rows):
            for c in cs:
                w = cval(c.shape[1])
                out.extend(c.args[0][r * w:(r + 1) * w])
        return carr(out, sh)
    return intern('cat', (tuple(merged), axis), sh)


def _merge_slices(q, p, axis):
    if q.op == 'index' and p.op == 'index' and q.args[0] is p.args[0]:
        a, b = q.args[1], p.args[1]
        if len(a) != len(b) or any(x[0] in ('i', 'n', 'arr') for x in a + b):
            return None
        for i, (x, y) in enumerate(zip(a, b)):
            if i == axis:
                if x[0] != 's' or y[0] != 's' or not dim_eq(x[2], y[1]):
                    return None
            elif x != y:
                return None
        return index(q.args[0], tuple(('s', x[1], y[2]) if i == axis else x for i, (x, y) in enumerate(zip(a, b))))
    return None


# ------------------------------------------------------------------ indexing

def norm_index(shape, spec):
    """spec: list of entries with raw python-like content:
       ('i', t) ('s', lo|None, hi|None, step|None) ('n',) ('e',) ('arr', t) ('mask', t)
       -> tuple of normalised entries covering every dimension, or None if it cannot be normalised."""
    if shape is None:
        return None
    n_used = sum((x[1].shape is not None and len(x[1].shape) or 1) if x[0] == 'mask' else (0 if x[0] in ('n', 'e') else 1)
                 for x in spec)
    if n_used > len(shape):
        issue('too many indices', a=shape, b=n_used)
        return None
    if any(x[0] == 'e' for x in spec):
        k = [x[0] for x in spec].index('e')
        spec = spec[:k] + [('s', None, None, None)] * (len(shape) - n_used) + spec[k + 1:]
    else:
        spec = spec + [('s', None, None, None)] * (len(shape) - n_used)
    out = []
    pos = 0
    for x in spec:
        if x[0] == 'n':
            out.append(x)
            continue
        d = shape[pos]
        if x[0] == 'i':
            t = x[1]
            if prove_gt0(s_neg(t)):
                t = s_add(t, d)
            out.append(('i', t))
            if prove_ge0(s_sub(t, d)):
                issue('index out of bounds', a=(t,), b=(d,))
            pos += 1
        elif x[0] == 's':
            step = x[3]
            if step is not None and not is_one(step) and not step is NONE:
                out.append(('sr', x[1], x[2], step))
                pos += 1
                continue
            lo = _bound(x[1], d, ZERO)
            hi = _bound(x[2], d, d)
            if lo is None or hi is None:
                return None
            if dim_eq(lo, ZERO) and dim_eq(hi, d):
                out.append(('a',))
            else:
                if not prove_ge0(s_sub(hi, lo)):
                    if prove_ge0(s_sub(lo, hi)):
                        hi = lo
                    else:
                        issue('slice-order', a=(lo,), b=(hi,))
                out.append(('s', lo, hi))
            pos += 1
        elif x[0] == 'mask':
            out.append(x)
            pos += len(x[1].shape) if x[1].shape is not None else 1
        else:
            out.append(x)
            pos += 1
    return tuple(out)


def _bound(t, d, default):
    if t is None or t is NONE:
        return default
    if prove_ge0(t):
        if prove_ge0(s_sub(t, d)):
            return d
        if not prove_ge0(s_sub(d, t)):
            issue('slice-clip', a=(t,), b=(d,))
        return t
    if prove_gt0(s_neg(t)):
        r = s_add(t, d)
        if prove_ge0(r):
            return r
        if prove_ge0(s_neg(r)):
            return ZERO
        issue('slice-clip', a=(t,), b=(d,))
        return r
    return None


def region_shape(shape, ix):
    out = []
    pos = 0
    for x in ix:
        if x[0] == 'n':
            out.append(ONE)
        elif x[0] == 'i':
            pos += 1
        elif x[0] == 'a':
            out.append(shape[pos])
            pos += 1
        elif x[0] == 's':
            out.append(s_sub(x[2], x[1]))
            pos += 1
        elif x[0] == 'sr':
            lo, hi, st = x[1], x[2], x[3]
            if (lo is None or lo is NONE) and (hi is None or hi is NONE) and is_num_const(st) and cval(st) == -1:
                out.append(shape[pos])
            else:
                out.append(intern('slicelen', (shape[pos], lo or NONE, hi or NONE, st), ()))
            pos += 1
        elif x[0] == 'arr':
            if x[1].shape is None:
                return None
            if not out or True:
                out.extend(x[1].shape)
            pos += 1
        elif x[0] == 'mask':
            out.append(count(x[1]))
            pos += len(x[1].shape) if x[1].shape is not None else 1
    # several integer arrays: numpy broadcasts them together; only the common cases are kept
    narr = sum(1 for x in ix if x[0] in ('arr', 'mask'))
    if narr > 1:
        return None
    return tuple(out)


def count(mask):
    return intern('count', (mask,), ())


def is_full(ix):
    return all(x[0] == 'a' for x in ix)


def ix_rel(a, b):
    """Relation of two normalised index tuples on the same array: 'same', 'disjoint', 'inside' (b inside a), None."""
    if len(a) != len(b):
        return None
    same = True
    inside = True
    for x, y in zip(a, b):
        if x[0] == 'n' or y[0] == 'n':
            return None
        r = _rel1(x, y)
        if r == 'disjoint':
            return 'disjoint'
        if r == 'same':
            continue
        same = False
        if r != 'inside':
            inside = False
    if same:
        return 'same'
    if inside:
        return 'inside'
    return None


def _rel1(x, y):
    if x == y:
        return 'same'
    if x[0] == 'a':
        return 'inside'
    kx, ky = x[0], y[0]
    if kx == 'i' and ky == 'i':
        if prove_eq(x[1], y[1]):
            return 'same'
        if prove_ne(x[1], y[1]):
            return 'disjoint'
        return None
    if kx == 's' and ky == 's':
        if prove_eq(x[1], y[1]) and prove_eq(x[2], y[2]):
            return 'same'
        if prove_ge0(s_sub(x[1], y[2])) or prove_ge0(s_sub(y[1], x[2])):
            return 'disjoint'
        if prove_ge0(s_sub(y[1], x[1])) and prove_ge0(s_sub(x[2], y[2])):
            return 'inside'
        return None
    if kx == 's' and ky == 'i':
        if prove_ge0(s_sub(y[1], x[2])) or prove_gt0(s_sub(x[1], y[1])):
            return 'disjoint'
        if prove_ge0(s_sub(y[1], x[1])) and prove_gt0(s_sub(x[2], y[1])):
            return 'inside'
        return None
    if kx == 'i' and ky == 's':
        if prove_ge0(s_sub(x[1], y[2])) or prove_gt0(s_sub(y[1], x[1])):
            return 'disjoint'
        return None
    return None


def relative_ix(a, b):
    """b is inside a: the index of b relative to the region a."""
    out = []
    for x, y in zip(a, b):
        if x[0] == 'i':
            continue
        if x[0] == 'a' or x == y and x[0] == 'a':
            out.append(y)
        elif x[0] == 's':
            if x == y:
                out.append(('a',))
            elif y[0] == 's':
                lo, hi = s_sub(y[1], x[1]), s_sub(y[2], x[1])
                if prove_eq(lo, ZERO) and prove_eq(hi, s_sub(x[2], x[1])):
                    out.append(('a',))
                else:
                    out.append(('s', lo, hi))
            else:
                out.append(('i', s_sub(y[1], x[1])))
        elif x == y:
            out.append(('a',))
        else:
            return None
    return tuple(out)


def compose_ix(ix1, ix2):
    """index(index(A, ix1), ix2) = index(A, compose)."""
    out = []
    it = list(ix2)
    pos = 0
    for x in ix1:
        if x[0] == 'i':
            out.append(x)
            continue
        while pos < len(it) and it[pos][0] == 'n':
            out.append(it[pos])
            pos += 1
        if pos >= len(it):
            return None
        y = it[pos]
        pos += 1
        if x[0] == 'n':
            if y[0] == 'a':
                out.append(('n',))
            elif y[0] == 'i':
                pass
            else:
                return None
        elif x[0] == 'a':
            out.append(y)
        elif x[0] == 's':
            if y[0] == 'a':
                out.append(x)
            elif y[0] == 's':
                out.append(('s', s_add(x[1], y[1]), s_add(x[1], y[2])))
            elif y[0] == 'i':
                out.append(('i', s_add(x[1], y[1])))
            else:
                return None
        else:
            if y[0] == 'a':
                out.append(x)
            elif x[0] == 'arr' and y[0] == 'i' and len(x[1].shape or ()) == 1:
                out.append(('i', index(x[1], (y,))))
            else:
                return None
    while pos < len(it):
        if it[pos][0] != 'n':
            return None
        out.append(it[pos])
        pos += 1
    return tuple(out)


def drop_newaxis(ix):
    return tuple(x for x in ix if x[0] != 'n')


def index(a, ix):
    """ix normalised."""
    if is_full(ix):
        return a
    if a.shape is None:
        return ext('index', (a,) + tuple(_ix_terms(ix)))
    sh = region_shape(a.shape, ix)
    if sh is not None and not sh and all(x[0] == 'i' for x in ix):
        r = _index_scalar(a, ix)
        if r is not None:
            return r
    nn = [x for x in ix if x[0] == 'n']
    if nn:
        core = drop_newaxis(ix)
        if is_full(core):
            if a.op == 'lin':
                if not a.args[0]:
                    return zeros(sh)
                c, k = single(a)
                if k is not a:
                    return scale(index(k, ix), c)
            if a.op == 'ones':
                return ones(sh)
            return intern('index', (a, ix), sh)
        inner = index(a, core)
        k = 0
        spec = []
        for x in ix:
            if x[0] == 'n':
                spec.append(x)
            elif x[0] != 'i':
                spec.append(('a',))
        if inner.shape == ():
            return full(sh, inner)
        return index(inner, tuple(spec))
    op = a.op
    if op == 'lin':
        if not a.args[0]:
            return zeros(sh) if sh else ZERO
        c, k = single(a)
        if k is not a:
            return scale(index(k, ix), c)
        if sh == ():
            r = ZERO
            for k, c in a.args[0]:
                r = s_add(r, s_mul(c, index(k, ix)))
            return r
    if op == 'ones':
        return ones(sh) if sh else ONE
    if op == 'full' and sh is not None:
        return full(sh, a.args[1]) if sh else a.args[1]
    if op == 'index' and not any(x[0] in ('sr', 'mask') for x in a.args[1]):
        c = compose_ix(a.args[1], ix)
        if c is not None:
            return index(a.args[0], c)
    if op == 'perm' and len(ix) == len(a.shape) and all(x[0] in ('i', 'a') or x[0] == 's' and len(x) == 3 for x in ix) and \
            any(x[0] == 'i' for x in ix):
        q = a.args[1]
        jx = [None] * len(q)
        for j, x in enumerate(ix):
            jx[q[j]] = x
        r = index(a.args[0], tuple(jx))
        kept = sorted(q[j] for j, x in enumerate(ix) if x[0] != 'i')
        want = [kept.index(q[j]) for j, x in enumerate(ix) if x[0] != 'i']
        return r if len(want) < 2 else transpose_axes(r, tuple(want))
    if op == 'store':
        base, jx, v = a.args
        if v.shape is not None or True:
            r = ix_rel(jx, ix)
            if r == 'disjoint':
                return index(base, ix)
            if r == 'same':
                return v
            if r == 'inside':
                rel = relative_ix(jx, ix)
                if rel is not None:
                    return index(v, rel) if v.shape != () else (full(sh, v) if sh else v)
    if op == 'scatter':
        r = _index_scatter(a, ix)
        if r is not None:
            return r
    if op == 'lam':
        r = _index_lam(a, ix)
        if r is not None:
            return r
    if op == 'bcast':
        r = _index_bcast(a, ix, sh)
        if r is not None:
            return r
    if op == 'T' and len(a.shape) == 2 and len(ix) == 2:
        r = index(a.args[0], (ix[1], ix[0]))
        if r.shape is not None and len(r.shape) == 2:
            return T(r)
        return r
    if op == 'cat':
        r = _index_cat(a, ix)
        if r is not None:
            return r
    if op == 'carr':
        r = _index_carr(a, ix, sh)
        if r is not None:
            return r
    if op == 'mul' and sh == ():
        r = ONE
        for f in a.args[0]:
            r = s_mul(r, index(f, ix))
        return r
    if op == 'ew' and sh == ():
        return scalar_fn(a.args[0], *[index(x, ix) if x.shape else x for x in a.args[1:]])
    if op == 'arange' and sh == ():
        return s_add(a.args[0], ix[0][1])
    if op == 'stack' and ix[0][0] == 'i' and is_num_const(ix[0][1]):
        k = cval(ix[0][1])
        if 0 <= k < len(a.args[0]):
            e = a.args[0][k]
            return index(e, ix[1:]) if ix[1:] else e
    if op == 'swap01' and len(ix) >= 2:
        return ext_index(a, ix, sh)
    if op == 'ite':
        if sh is not None:
            return ite(a.args[0], index(a.args[1], ix), index(a.args[2], ix)) if a.args[1].shape is not None and \
                a.args[2].shape is not None else intern('index', (a, ix), sh)
    if sh is None:
        return ext('index', (a,) + tuple(_ix_terms(ix)))
    return intern('index', (a, ix), sh)


def ext_index(a, ix, sh):
    return intern('index', (a, ix), sh)


def _ix_terms(ix):
    out = []
    for x in ix:
        out.append(const('ix:' + x[0]))
        out.extend(y if y is not None else NONE for y in x[1:])
    return out


def _index_scalar(a, ix):
    return None


def _index_carr(a, ix, sh):
    dims = cdims(a.shape)
    sel = []
    for x, d in zip(ix, dims):
        if x[0] == 'a':
            sel.append(list(range(d)))
        elif x[0] == 'i' and is_num_const(x[1]):
            v = cval(x[1])
            if not isinstance(v, int) or not -d <= v < d:
                return None
            sel.append([v % d])
        elif x[0] == 's' and is_num_const(x[1]) and is_num_const(x[2]):
            sel.append(list(range(cval(x[1]), cval(x[2]))))
        elif x[0] == 'sr':
            def g(t):
                return None if t is None or t is NONE else cval(t)
            if any(t is not None and t is not NONE and not is_num_const(t) for t in x[1:]):
                return None
            sel.append(list(range(d))[slice(g(x[1]), g(x[2]), g(x[3]))])
        elif x[0] == 'arr' and x[1].op == 'carr' and all(is_num_const(y) for y in x[1].args[0]):
            sel.append([cval(y) for y in x[1].args[0]])
        else:
            return None
    items = []

    def rec(k, off):
        if k == len(dims):
            items.append(a.args[0][off])
            return
        for i in sel[k]:
            rec(k + 1, off * dims[k] + i)
    rec(0, 0)
    if not sh:
        return items[0] if items else None
    sh2 = tuple(const(len(s)) for s, x in zip(sel, ix) if x[0] != 'i')
    return carr(items, sh2)


def _index_bcast(a, ix, sh):
    base = a.args[0]
    off = len(a.shape) - len(base.shape)
    new = []
    for k, x in enumerate(ix):
        if k < off:
            continue
        d = base.shape[k - off]
        if is_one(d) and not is_one(a.shape[k]):
            new.append(('a',) if x[0] != 'i' else ('i', ZERO))
        else:
            new.append(x)
    inner = index(base, tuple(new)) if new else base
    if sh is None:
        return None
    if inner.shape == ():
        return full(sh, inner) if sh else inner
    return bcast(inner, sh)


def _index_cat(a, ix):
    parts, axis = a.args
    x = ix[axis]
    if x[0] == 'a':
        outs = [index(p, ix) for p in parts]
        if any(o.shape is None for o in outs):
            return None
        ax = sum(1 for y in ix[:axis] if y[0] not in ('i',))
        return cat(outs, ax)
    off = ZERO
    hits = []
    for p in parts:
        w = p.shape[axis]
        end = s_add(off, w)
        if x[0] == 'i':
            if prove_ge0(s_sub(x[1], off)) and prove_gt0(s_sub(end, x[1])):
                return index(p, ix[:axis] + (('i', s_sub(x[1], off)),) + ix[axis + 1:])
            if not (prove_ge0(s_sub(x[1], end)) or prove_gt0(s_sub(off, x[1]))):
                return None
        elif x[0] == 's':
            if prove_ge0(s_sub(x[1], end)) or prove_ge0(s_sub(off, x[2])):
                pass
            else:
                lo = x[1] if prove_ge0(s_sub(x[1], off)) else (off if prove_ge0(s_sub(off, x[1])) else None)
                hi = x[2] if prove_ge0(s_sub(end, x[2])) else (end if prove_ge0(s_sub(x[2], end)) else None)
                if lo is None or hi is None:
                    return None
                l2, h2 = s_sub(lo, off), s_sub(hi, off)
                e = ('a',) if prove_eq(l2, ZERO) and prove_eq(h2, w) else ('s', l2, h2)
                hits.append(index(p, ix[:axis] + (e,) + ix[axis + 1:]))
        else:
            return None
        off = end
    if x[0] == 's' and hits:
        ax = sum(1 for y in ix[:axis] if y[0] not in ('i',))
        return hits[0] if len(hits) == 1 else cat(hits, ax)
    return None


# ------------------------------------------------------------------ stores, scatters, lambdas

def store(a, ix, v):
    """a with region ix replaced by v."""
    if a.shape is None:
        return ext('store', (a,) + tuple(_ix_terms(ix)) + (v,))
    sh = region_shape(a.shape, ix)
    if sh is not None and v.shape is not None:
        if sh == () and v.shape != ():
            if not all(is_one(d) for d in v.shape):
                issue('assign', a=sh, b=v.shape)
        elif sh != ():
            b = bshape(sh, v.shape, 'assignment') if len(v.shape) <= len(sh) else None
            if len(v.shape) > len(sh) and not all(is_one(d) for d in v.shape[:len(v.shape) - len(sh)]):
                issue('assign', a=sh, b=v.shape)
            elif b is not None and not same_shape(b, sh):
                issue('assign', a=sh, b=v.shape)
            v = bcast(v, sh)
    if is_full(ix):
        return v if v.shape is not None else ext('filled', (a, v), a.shape)
    for x in ix:
        if x[0] == 's' and prove_eq(x[1], x[2]):
            return a
    if any(x[0] == 'n' for x in ix):
        ix = drop_newaxis(ix)
    if a.op == 'store':
        r = ix_rel(a.args[1], ix)
        if r == 'same':
            return store(a.args[0], ix, v)
        if ix_rel(ix, a.args[1]) == 'inside':
            return store(a.args[0], ix, v)
        if r == 'inside' and not any(x[0] in ('arr', 'mask', 'sr') for x in ix + a.args[1]):
            rel = relative_ix(a.args[1], ix)
            if rel is not None and a.args[2].shape is not None and a.args[2].shape != ():
                return store(a.args[0], a.args[1], store(a.args[2], rel, v))
    if a.op == 'store':
        # an older store to the same region further down is dead
        chain, b = [], a
        while b.op == 'store' and ix_rel(b.args[1], ix) == 'disjoint':
            chain.append(b)
            b = b.args[0]
        if chain and b.op == 'store' and (ix_rel(ix, b.args[1]) == 'inside' or ix_rel(b.args[1], ix) == 'same'):
            b = b.args[0]
            for c in reversed(chain):
                b = store(b, c.args[1], c.args[2])
            return store(b, ix, v)
    if len(a.shape) == 2 and len(ix) == 2 and ix[0] == ('a',) and ix[1][0] == 'i' and is_num_const(ix[1][1]) and \
            is_num_const(a.shape[1]) and 1 <= cval(a.shape[1]) <= 8:
        m = cval(a.shape[1])
        cols, b = {cval(ix[1][1]): v}, a
        while b.op == 'store' and b.args[1][0] == ('a',) and b.args[1][1][0] == 'i' and \
                is_num_const(b.args[1][1][1]):
            cols.setdefault(cval(b.args[1][1][1]), b.args[2])
            b = b.args[0]
        if set(cols) == set(range(m)):
            return T(stack([cols[k] for k in range(m)]))
    if a.op == 'scatter':
        base, bv, lo, hi, jx, w = a.args
        if len(jx) == len(ix):
            mp = {bv: hi}
            if tuple(tuple(tm.subst(z, mp) if isinstance(z, Term) else z for z in e) for e in jx) == tuple(ix) and \
                    tm.subst(w, mp) is v:
                return scatter(base, bv, lo, s_add(hi, ONE), jx, w)
    if v.op == 'index' and v.args[0] is a and v.args[1] == ix:
        return a
    if a.op == 'index' and v is index(a, ix):
        return a
    if a.op == 'cat':
        r = _store_cat(a, ix, v)
        if r is not None:
            return r
    ca = a if a.op == 'carr' else (to_carr(a) if is_zero(a) or a.op in ('ones', 'lin') else None)
    if ca is not None and a.shape and cdims(a.shape) is not None:
        r = _store_carr(ca, ix, v)
        if r is not None:
            return r
    if len(ix) == 1 and all(is_num_const(d) for d in a.shape) and ix[0][0] == 'i' and is_num_const(ix[0][1]) \
            and cdims(a.shape)[0] <= 8 and sh == ():
        n = cdims(a.shape)[0]
        k = cval(ix[0][1])
        if isinstance(k, int) and 0 <= k < n:
            return carr([v if j == k else index(a, (('i', const(j)),)) for j in range(n)], a.shape)
    if a.op == 'stack' or (ix[0][0] == 'i' and is_num_const(ix[0][1]) and all(y[0] == 'a' for y in ix[1:]) and
                           is_num_const(a.shape[0]) and cval(a.shape[0]) <= 8 and len(a.shape) > 1):
        n = cval(a.shape[0])
        if ix[0][0] == 'i' and is_num_const(ix[0][1]) and 0 <= cval(ix[0][1]) < n:
            k = cval(ix[0][1])
            full_ix = tuple(('a',) for _ in a.shape[1:])
            items = [index(a, (('i', const(j)),) + full_ix) for j in range(n)]
            items[k] = store(items[k], ix[1:], v) if not is_full(ix[1:]) else v
            return stack(items)
    return intern('store', (a, ix, v), a.shape)


def stack(items):
    """Array whose leading dimension has a known small size."""
    sh = items[0].shape
    if any(x.shape is None for x in items):
        return ext('stack', items)
    for x in items[1:]:
        if not same_shape(x.shape, sh):
            issue('stack', a=sh, b=x.shape)
            return ext('stack', items)
    if sh == ():
        return carr(items, (const(len(items)),))
    b = items[0]
    if b.op == 'index' and b.args[1][0] == ('i', ZERO) and is_full(b.args[1][1:]) and \
            is_num_const(b.args[0].shape[0]) and cval(b.args[0].shape[0]) == len(items):
        if all(x.op == 'index' and x.args[0] is b.args[0] and x.args[1] == (('i', const(j)),) + b.args[1][1:]
               for j, x in enumerate(items)):
            return b.args[0]
    if all(is_zero(x) for x in items):
        return zeros((const(len(items)),) + tuple(sh))
    return intern('stack', (tuple(items),), (const(len(items)),) + tuple(sh))


def _store_carr(a, ix, v):
    dims = cdims(a.shape)
    sel = []
    for x, d in zip(ix, dims):
        if x[0] == 'a':
            sel.append(list(range(d)))
        elif x[0] == 'i' and is_num_const(x[1]) and isinstance(cval(x[1]), int) and 0 <= cval(x[1]) < d:
            sel.append([cval(x[1])])
        elif x[0] == 's' and is_num_const(x[1]) and is_num_const(x[2]):
            sel.append(list(range(cval(x[1]), cval(x[2]))))
        else:
            return None
    items = list(a.args[0])
    pos = []

    def rec(k, off):
        if k == len(dims):
            pos.append(off)
            return
        for i in sel[k]:
            rec(k + 1, off * dims[k] + i)
    rec(0, 0)
    if v.shape == ():
        vals = [v] * len(pos)
    else:
        cv = to_carr(v)
        if cv is None or len(cv.args[0]) != len(pos):
            return None
        vals = cv.args[0]
    for p, x in zip(pos, vals):
        items[p] = x
    return carr(items, a.shape)


def _store_cat(a, ix, v):
    parts, axis = a.args
    x = ix[axis]
    if any(y[0] != 'a' for i, y in enumerate(ix) if i != axis):
        return None
    off = ZERO
    for k, p in enumerate(parts):
        end = s_add(off, p.shape[axis])
        if x[0] == 'i' and prove_eq(x[1], off) and prove_eq(s_sub(end, off), ONE):
            nv = index(v, tuple(('n',) if i == axis else ('a',) for i in range(len(ix)))) if v.shape else full(p.shape, v)
            return cat(list(parts[:k]) + [nv] + list(parts[k + 1:]), axis)
        if x[0] == 's' and prove_eq(x[1], off) and prove_eq(x[2], end):
            return cat(list(parts[:k]) + [v] + list(parts[k + 1:]), axis)
        off = end
    return None


BV = {}


def bound_var(k):
    """Canonical bound variable number k."""
    if k not in BV or BV[k] not in tm._TABLE.values():
        pass
    return tm.atom('bv%d' % k, (), kind='int')


def fresh_bv(terms):
    used = set()
    for t in terms:
        if isinstance(t, Term):
            for u in tm.subterms(t):
                if u.op == 'atom' and isinstance(u.args[0], str) and u.args[0].startswith('bv'):
                    used.add(u.args[0])
    k = 0
    while 'bv%d' % k in used:
        k += 1
    return bound_var(k)


def scatter(a, var, lo, hi, ix, v):
    """for var in [lo, hi): a[ix(var)] = v(var)."""
    bv = canon_bv(var, [x for e in ix for x in e if isinstance(x, Term)] + [v, a])
    if bv is not var:
        mp = {var: bv}
        ix = tuple(tuple(tm.subst(x, mp) if isinstance(x, Term) else x for x in e) for e in ix)
        v = tm.subst(v, mp)
    if prove_ge0(s_sub(lo, hi)):
        return a
    # full coverage of one dimension: it is a lambda
    if len(ix) >= 1 and a.shape is not None:
        hits = [k for k, e in enumerate(ix) if e[0] == 'i' and e[1] is bv]
        if len(hits) == 1 and all(e[0] == 'a' for k, e in enumerate(ix) if k != hits[0]) and \
                dim_eq(lo, ZERO) and dim_eq(hi, a.shape[hits[0]]):
            return lam(bv, hi, hits[0], v, a.shape)
        if len(hits) == 1 and dim_eq(lo, ZERO) and dim_eq(hi, a.shape[hits[0]]) and len(ix) == len(a.shape) and \
                all(e[0] in 'ai' and not any(isinstance(z, Term) and bv in tm.free_atoms(z) for z in e)
                    for k, e in enumerate(ix) if k != hits[0]):
            jx = tuple(('a',) if k == hits[0] else e for k, e in enumerate(ix))
            sh = region_shape(a.shape, jx)
            ax = sum(1 for e in jx[:hits[0]] if e[0] == 'a')
            return store(a, jx, lam(bv, hi, ax, v, sh))
    return intern('scatter', (a, bv, lo, hi, ix, v), a.shape)


def canon_bv(var, terms):
    used = set()
    for t in terms:
        for u in tm.subterms(t):
            if u.op == 'atom' and u is not var and isinstance(u.args[0], str) and u.args[0].startswith('bv'):
                used.add(u.args[0])
    k = 0
    while 'bv%d' % k in used:
        k += 1
    return bound_var(k)


def lam(bv, extent, axis, v, shape):
    """Array whose slice number bv along axis is v(bv)."""
    nb = canon_bv(bv, [v])
    if nb is not bv:
        v = tm.subst(v, {bv: nb})
        bv = nb
    # eta: lam i. A[.., i, ..] = A
    if v.op == 'index':
        base, ix = v.args
        if base.shape is not None and len(base.shape) == len(shape) and len(ix) == len(shape) and \
                ix[axis] == ('i', bv) and all(e == ('a',) for k, e in enumerate(ix) if k != axis) and \
                bv not in tm.free_atoms(base) and same_shape(base.shape, shape):
            return base
    if bv not in tm.free_atoms(v):
        if v.shape == ():
            return full(shape, v)
        return bcast(index(v, tuple(('n',) if k == axis else ('a',) for k in range(len(shape)))), shape) \
            if v.shape is not None else intern('lam', (bv, extent, axis, v), tuple(shape))
    return intern('lam', (bv, extent, axis, v), tuple(shape))


def _index_lam(a, ix):
    bv, extent, axis, v = a.args
    x = ix[axis]
    rest = ix[:axis] + ix[axis + 1:]
    if x[0] == 'i':
        r = tm.subst(v, {bv: x[1]})
        if is_full(rest):
            return r
        if r.shape is None or len(r.shape) != len(rest):
            return None
        return index(r, rest)
    if x[0] == 'a' and v.shape is not None and len(v.shape) == len(rest) and any(e[0] != 'a' for e in rest):
        nv = index(v, rest)
        sh = region_shape(a.shape, ix)
        ax = sum(1 for e in ix[:axis] if e[0] != 'i')
        return lam(bv, extent, ax, nv, sh)
    return None


def _index_scatter(a, ix):
    base, bv, lo, hi, jx, v = a.args
    # which loop index would produce this region?
    cand = None
    for x, y in zip(jx, ix):
        if x[0] == 'i' and bv in tm.free_atoms(x[1]) and y[0] == 'i':
            p = to_poly(s_sub(y[1], x[1]))
            c = p.get(((bv, 1),))
            if c in (1, -1) and all(bv not in dict(m) or m == ((bv, 1),) for m in p):
                q = dict(p)
                del q[((bv, 1),)]
                cand = from_poly(tm.pscale(q, -c))
                break
    if cand is not None:
        if prove_ge0(s_sub(cand, lo)) and prove_gt0(s_sub(hi, cand)):
            mp = {bv: cand}
            kx = tuple(tuple(tm.subst(z, mp) if isinstance(z, Term) else z for z in e) for e in jx)
            val = tm.subst(v, mp)
            r = ix_rel(kx, ix)
            if r == 'same':
                return val
            if r == 'inside':
                rel = relative_ix(kx, ix)
                if rel is not None and val.shape is not None:
                    return index(val, rel) if val.shape != () else val
            if r == 'disjoint':
                return index(base, ix)
            return None
        if prove_ge0(s_sub(cand, hi)) or prove_gt0(s_sub(lo, cand)):
            return index(base, ix)
    return None


def sumover(var, lo, hi, body):
    """sum of body(var) for var in [lo, hi)."""
    if is_zero(body):
        return body
    if prove_ge0(s_sub(lo, hi)):
        return zeros(body.shape) if body.shape else ZERO
    if var not in tm.free_atoms(body):
        return scale(body, s_sub(hi, lo)) if body.shape != () else s_mul(body, s_sub(hi, lo))
    c, k = single(body) if body.shape != () else (ONE, body)
    if k is not body and var not in tm.free_atoms(c):
        return scale(sumover(var, lo, hi, k), c)
    bv = canon_bv(var, [body])
    if bv is not var:
        body = tm.subst(body, {var: bv})
    return intern('sumover', (bv, lo, hi, body), body.shape)


# ------------------------------------------------------------------ reshaping

def reshape(a, shape):
    if a.shape is not None and same_shape(a.shape, shape):
        return a
    if a.op == 'reshape':
        return reshape(a.args[0], shape)
    if a.shape is not None:
        n1 = n2 = ONE
        for d in a.shape:
            n1 = s_mul(n1, d)
        for d in shape:
            n2 = s_mul(n2, d)
        if not dim_eq(n1, n2):
            issue('reshape', a=a.shape, b=shape)
        if is_zero(a):
            return zeros(shape)
        if a.op == 'ones':
            return ones(shape)
        c = to_carr(a) if cdims(shape) is not None else None
        if c is not None and c.op == 'carr':
            tot = 1
            for d in cdims(shape):
                tot *= d
            if tot == len(c.args[0]):
                return carr(c.args[0], shape)
        # inserting or removing unit axes
        core = [d for d in shape if not is_one(d)]
        acore = [d for d in a.shape if not is_one(d)]
        if len(core) == len(acore) and all(dim_eq(x, y) for x, y in zip(core, acore)):
            ix = []
            k = 0
            src = list(a.shape)
            sq = tuple(('i', ZERO) if is_one(d) else ('a',) for d in src)
            inner = index(a, sq) if any(x[0] == 'i' for x in sq) else a
            for d in shape:
                ix.append(('n',) if is_one(d) else ('a',))
            if inner.shape == ():
                return full(shape, inner)
            return index(inner, tuple(ix)) if any(x[0] == 'n' for x in ix) else inner
    return intern('reshape', (a, tuple(shape)), tuple(shape))


def transpose_axes(a, perm):
    """General axis permutation."""
    if a.shape is None:
        return ext('transpose', (a,) + tuple(const(p) for p in perm))
    if tuple(perm) == tuple(range(len(perm))):
        return a
    if len(perm) == 2:
        return T(a)
    sh = tuple(a.shape[p] for p in perm)
    if is_zero(a):
        return zeros(sh)
    if a.op == 'perm':
        q = tuple(a.args[1][p] for p in perm)
        return transpose_axes(a.args[0], q)
    if a.op == 'stack' and perm[0] == 0:
        return stack([transpose_axes(x, tuple(p - 1 for p in perm[1:])) for x in a.args[0]])
    if perm[0] == 0 and is_num_const(a.shape[0]) and cval(a.shape[0]) <= 8:
        full_ix = tuple(('a',) for _ in a.shape[1:])
        return stack([transpose_axes(index(a, (('i', const(j)),) + full_ix), tuple(p - 1 for p in perm[1:]))
                      for j in range(cval(a.shape[0]))])
    return intern('perm', (a, tuple(perm)), sh)


# ------------------------------------------------------------------ rebuild hooks

def _ix_of(args):
    return args


REBUILD['lin'] = lambda args, sh: _rb_lin(args, sh)


def _rb_lin(args, sh):
    if not args[0]:
        return zeros(args[1][1:] if args[1][1:] != (None,) else None)
    return lincomb2(args[0])


def lincomb2(items):
    return lincomb([(k, c) for k, c in items])


def _rb_index(args, sh):
    a, ix = args
    # scalars substituted for arrays
    if a.shape == ():
        return a
    ix = tuple(_renorm(e) for e in ix)
    return index(a, ix)


def _renorm(e):
    return e


REBUILD['index'] = _rb_index
REBUILD['store'] = lambda args, sh: store(*args)
REBUILD['mul'] = lambda args, sh: _rb_mul(args[0])
REBUILD['ones'] = lambda args, sh: ones(args[0])
REBUILD['full'] = lambda args, sh: full(args[0], args[1])
REBUILD['eye'] = lambda args, sh: eye(args[0])
REBUILD['bcast'] = lambda args, sh: bcast(args[0], args[1])
REBUILD['T'] = lambda args, sh: T(args[0])
REBUILD['dot'] = lambda args, sh: dot(args[0], args[1])
REBUILD['trace'] = lambda args, sh: trace(args[0])
REBUILD['sum'] = lambda args, sh: reduce_sum(args[0], args[1])
REBUILD['diag'] = lambda args, sh: diag(args[0])
REBUILD['diagonal'] = lambda args, sh: diagonal(args[0])
REBUILD['cat'] = lambda args, sh: cat(list(args[0]), args[1])
REBUILD['stack'] = lambda args, sh: stack(list(args[0]))
REBUILD['carr'] = lambda args, sh: carr(args[0], args[1])
REBUILD['max'] = lambda args, sh: smax(list(args[0]))
REBUILD['min'] = lambda args, sh: smin(list(args[0]))
REBUILD['ite'] = lambda args, sh: ite(*args)
REBUILD['ge0'] = lambda args, sh: ge0(args[0])
REBUILD['eq0'] = lambda args, sh: eq0(args[0])
REBUILD['not'] = lambda args, sh: b_not(args[0])
REBUILD['and'] = lambda args, sh: b_and(args[0])
REBUILD['or'] = lambda args, sh: b_or(args[0])
REBUILD['sqrt'] = lambda args, sh: sqrt(args[0])
REBUILD['abs'] = lambda args, sh: sabs(args[0])
REBUILD['reshape'] = lambda args, sh: reshape(args[0], args[1])
REBUILD['perm'] = lambda args, sh: transpose_axes(args[0], args[1])
REBUILD['sumover'] = lambda args, sh: sumover(*args)
REBUILD['lam'] = lambda args, sh: lam(args[0], args[1], args[2], args[3], sh)
REBUILD['scatter'] = lambda args, sh: scatter(*args)
REBUILD['pow'] = lambda args, sh: power(*args)


def _rb_mul(fs):
    r = fs[0]
    for f in fs[1:]:
        r = mul(r, f)
    return r


def _rb_ew(args, sh):
    if args[0] == 'recip':
        return recip(args[1]) if args[1].shape != () else s_div(ONE, args[1])
    if args[0] == 'sqrt':
        return sqrt(args[1])
    return ew(*args)


REBUILD['ew'] = _rb_ew


def quiet(f, *a):
    """Build without recording shape issues (used for rebuilds)."""
    n = len(ISSUES)
    r = f(*a)
    del ISSUES[n:]
    return r
