"""Hash-consed value-number terms.

A Term stands for the value computed by an expression of the analysed program.  Equal terms denote
equal values (Herbrand equivalence plus a few algebraic identities on scalars).  Scalars (shape ())
are kept as polynomials over scalar atoms, so that index and size arithmetic is canonical.
"""
from fractions import Fraction

_TABLE = {}
_NEXT = [0]
ATOMS = {}


class Term:
    __slots__ = ('op', 'args', 'id', 'shape', '_ch', '_fa')

    def __init__(self, op, args, shape):
        self.op, self.args, self.shape = op, args, shape
        self.id = _NEXT[0]
        _NEXT[0] += 1
        self._ch = None
        self._fa = None

    def __repr__(self):
        return show(self, 6)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.id < other.id


def _flat(args, out):
    for a in args:
        if isinstance(a, Term):
            out.append(a)
        elif isinstance(a, tuple):
            _flat(a, out)


def children(t):
    if t._ch is None:
        out = []
        _flat(t.args, out)
        t._ch = tuple(out)
    return t._ch


def intern(op, args, shape=None):
    key = (op, args)
    t = _TABLE.get(key)
    if t is None:
        t = Term(op, args, shape)
        _TABLE[key] = t
    elif t.shape is None and shape is not None:
        t.shape = shape
    return t


def reset():
    """Forget everything: only between completely independent runs."""
    _TABLE.clear()
    ATOMS.clear()
    _MEMO_SUBST.clear()
    PHI_KIND.clear()
    PHI_BOUNDS.clear()


# ---------------------------------------------------------------- constants and atoms

def const(v):
    if isinstance(v, Fraction):
        if v.denominator == 1:
            v = int(v)
    return intern('const', (type(v).__name__, v), ())


PHI_KIND = {}
PHI_BOUNDS = {}


def is_const(t):
    return isinstance(t, Term) and t.op == 'const'


def cval(t):
    return t.args[1]


def atom(name, shape=(), **meta):
    """meta: kind ('int'|'float'|'arr'|'bool'|'str'|'any'), lo, hi (numbers), ge, le (lists of terms),
    rng=(lo, hi, step) for loop variables, nonneg, unit (axis), label ..."""
    t = intern('atom', (name,), shape)
    if shape is not None and t.shape is not None and tuple(t.shape) != tuple(shape):
        raise ValueError('atom %s used with two shapes' % name)
    m = ATOMS.setdefault(name, {})
    for k, v in meta.items():
        m[k] = v
    return t


def find_atom(name):
    return _TABLE.get(('atom', (name,)))


def meta(t):
    return ATOMS.get(t.args[0], {}) if t.op == 'atom' else {}


def frac(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, Fraction):
        return v
    return Fraction(repr(v))


def is_num_const(t):
    return (isinstance(t, Term) and t.op == 'const' and isinstance(t.args[1], (int, float, Fraction)) and
            not isinstance(t.args[1], bool) and (not isinstance(t.args[1], float) or
                                                 (t.args[1] == t.args[1] and abs(t.args[1]) != float('inf'))))


# ---------------------------------------------------------------- scalar polynomials
# dict: monomial (tuple of (Term, exponent) sorted by id) -> Fraction

def to_poly(t):
    if is_num_const(t):
        v = frac(t.args[1])
        return {(): v} if v else {}
    if t.op == 'const' and isinstance(t.args[1], bool):
        return {(): Fraction(1)} if t.args[1] else {}
    if t.op == 'poly':
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return const(0)
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return _cfrac(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(p.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0])))
    return intern('poly', (items,), ())


def _cfrac(c):
    if c.denominator == 1:
        return const(int(c))
    return intern('const', ('Fraction', c), ())


def padd(a, b):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + c
        if r[m] == 0:
            del r[m]
    return r


def mmul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
            if r[m] == 0:
                del r[m]
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def s_add(a, b):
    return from_poly(padd(to_poly(a), to_poly(b)))


def s_neg(a):
    return from_poly(pscale(to_poly(a), -1))


def s_sub(a, b):
    return from_poly(padd(to_poly(a), pscale(to_poly(b), -1)))


def s_mul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 400:
        return intern('smul', tuple(sorted((a, b))), ())
    return from_poly(pmul(pa, pb))


def s_div(a, b):
    pb = to_poly(b)
    if not pb:
        return intern('divzero', (a,), ())
    if len(pb) == 1:
        (m, c), = pb.items()
        inv = {tuple((x, -e) for x, e in m): 1 / c}
        return from_poly(pmul(to_poly(a), inv))
    # a sum in the denominator: factor out common content, keep it as one atom
    g = None
    for m in pb:
        s = dict(m)
        g = s if g is None else {x: min(e, s[x]) for x, e in g.items() if x in s}
    g = {x: e for x, e in (g or {}).items() if e > 0}
    lead = min(pb.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))
    scale = lead[1]
    gm = tuple(sorted(g.items(), key=lambda x: x[0].id))
    ginv = tuple((x, -e) for x, e in gm)
    rest = from_poly({mmul(m, ginv): c / scale for m, c in pb.items()})
    if rest.op == 'poly':
        invrest = ((intern('grp', (rest,), ()), -1),)
        inv = {mmul(ginv, invrest): 1 / scale}
    else:
        inv = {mmul(ginv, tuple((x, -e) for x, e in list(to_poly(rest))[0])): 1 / scale}
    r = pmul(to_poly(a), inv)
    return from_poly(r)


def s_pow(a, b):
    if is_num_const(b):
        e = frac(b.args[1])
        if e.denominator == 1:
            e = int(e)
            pa = to_poly(a)
            if 0 <= e <= 4 and len(pa) <= 6:
                r = {(): Fraction(1)}
                for _ in range(e):
                    r = pmul(r, pa)
                return from_poly(r)
            if len(pa) == 1:
                (m, c), = pa.items()
                return from_poly({tuple((x, k * e) for x, k in m): c ** e})
    return intern('pow', (a, b), ())


# ---------------------------------------------------------------- traversal helpers

def free_atoms(t):
    """Set of leaf atoms/phis of a term (cached)."""
    if t._fa is None:
        stack = [t]
        while stack:
            u = stack[-1]
            if u._fa is not None:
                stack.pop()
                continue
            todo = [c for c in children(u) if c._fa is None]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            if u.op in ('atom', 'phi'):
                u._fa = frozenset([u])
            else:
                s = set()
                for c in children(u):
                    s |= c._fa
                u._fa = frozenset(s)
    return t._fa


def size(t, limit=10 ** 6):
    seen = set()
    stack = [t]
    n = 0
    while stack and n < limit:
        u = stack.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        n += 1
        stack.extend(children(u))
    return n


def subterms(t):
    seen = {}
    stack = [t]
    while stack:
        u = stack.pop()
        if u.id in seen:
            continue
        seen[u.id] = u
        stack.extend(children(u))
    return seen.values()


BINDERS = {'lam': 0, 'sumover': 0, 'scatter': 1}      # position of the bound variable
REBUILD = {}          # op -> function(args, shape) rebuilding with simplification
_MEMO_SUBST = {}
_MEMO_CTX = [None]


def _map_args(args, f):
    out = []
    for a in args:
        if isinstance(a, Term):
            out.append(f(a))
        elif isinstance(a, tuple):
            out.append(_map_args(a, f))
        else:
            out.append(a)
    return tuple(out)


def rebuild(op, args, shape):
    f = REBUILD.get(op)
    if f is not None:
        return f(args, shape)
    return intern(op, args, shape)


def subst(t, mapping):
    """Replace terms (usually atoms) by terms, rebuilding with simplification."""
    if not mapping:
        return t
    from . import prove
    keys = (frozenset(mapping.items()), id(prove.CUR[0]))
    if _MEMO_CTX[0] is not prove.CUR[0] or len(_MEMO_SUBST) > 2000:
        _MEMO_SUBST.clear()
        _MEMO_CTX[0] = prove.CUR[0]
    memo = _MEMO_SUBST.setdefault(keys, {})
    atoms_only = all(k.op in ('atom', 'phi') for k in mapping)
    keyset = set(mapping)
    va = []

    def valatoms():
        if not va:
            z = set()
            for v in mapping.values():
                z |= free_atoms(v)
            va.append(z)
        return va[0]

    def go(u):
        r = memo.get(u)
        if r is not None:
            return r
        if u in mapping:
            r = mapping[u]
        elif atoms_only and not (free_atoms(u) & keyset) and not _shape_has(u, keyset):
            r = u
        elif u.op in ('atom', 'phi', 'const'):
            sh = go_shape(u.shape)
            r = u if sh == u.shape else intern('reshaped', (u,), sh)
            if r.op == 'reshaped':
                r = u
        elif u.op in BINDERS and (u.args[BINDERS[u.op]] in keyset or u.args[BINDERS[u.op]] in valatoms()):
            bv = u.args[BINDERS[u.op]]
            used = {x for x in free_atoms(u)} | valatoms() | keyset
            k = 0
            while atom('bv%d' % k, (), kind='int') in used:
                k += 1
            nb = atom('bv%d' % k, (), kind='int')
            inner = dict(mapping)
            inner[bv] = nb
            body = [a if not isinstance(a, (Term, tuple)) else a for a in u.args]
            nargs = []
            for i, a in enumerate(body):
                if i == BINDERS[u.op]:
                    nargs.append(nb)
                else:
                    nargs.append(_map_args((a,), lambda z: subst(z, inner))[0])
            r = rebuild(u.op, tuple(nargs), go_shape(u.shape))
        else:
            nargs = _map_args(u.args, go)
            r = rebuild(u.op, nargs, go_shape(u.shape)) if u.op != 'poly' else _subst_poly(nargs)
        memo[u] = r
        return r

    def go_shape(sh):
        if sh is None or sh == ():
            return sh
        return tuple(go(d) if isinstance(d, Term) else d for d in sh)

    return go(t)


def _shape_has(u, keyset):
    if not u.shape:
        return False
    return any(isinstance(d, Term) and (free_atoms(d) & keyset) for d in u.shape)


def _subst_poly(args):
    r = {}
    for m, c in args[0]:
        p = {(): c}
        for a, e in m:
            if e >= 0:
                pa = to_poly(a)
                for _ in range(e):
                    p = pmul(p, pa)
            else:
                d = s_div(const(1), s_pow(a, const(-e)))
                p = pmul(p, to_poly(d))
        r = padd(r, p)
    return from_poly(r)


def _grp(args, shape):
    t = args[0]
    return t if t.op != 'poly' else intern('grp', (t,), ())


REBUILD['grp'] = _grp


# ---------------------------------------------------------------- display

def show(t, depth=8):
    if not isinstance(t, Term):
        return repr(t) if not isinstance(t, tuple) else '(' + ', '.join(show(x, depth) for x in t) + ')'
    if depth <= 0:
        return '..'
    if t.op == 'const':
        return repr(t.args[1]) if not isinstance(t.args[1], Fraction) else str(t.args[1])
    if t.op == 'atom':
        return str(t.args[0])
    if t.op == 'phi':
        return 'phi<%s>' % (t.args[1],)
    if t.op == 'poly':
        parts = []
        for m, c in t.args[0]:
            f = ['%s%s' % (show(a, depth - 1), '' if e == 1 else '^%d' % e) for a, e in m]
            if c != 1 or not f:
                f.insert(0, str(c))
            parts.append('*'.join(f))
        return '(' + ' + '.join(parts) + ')'
    if t.op == 'index':
        return '%s[%s]' % (show(t.args[0], depth - 1), ', '.join(show_ix(x, depth - 1) for x in t.args[1]))
    return '%s(%s)' % (t.op, ', '.join(show(a, depth - 1) for a in t.args))


def show_ix(x, depth=6):
    if x[0] == 'i':
        return show(x[1], depth)
    if x[0] == 's':
        return '%s:%s' % (show(x[1], depth), show(x[2], depth)) + ('' if len(x) < 4 or x[3] is None or show(x[3]) == '1' else ':' + show(x[3]))
    if x[0] == 'a':
        return ':'
    if x[0] == 'n':
        return 'newaxis'
    return show(x[1], depth)
