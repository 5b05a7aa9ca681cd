"""Small arithmetic prover for sizes, indices and step lengths: interval bounds of atoms, ordering facts
collected on the path, and substitution of bounds, with a depth limit.  No external solver."""
from fractions import Fraction
from . import terms as tm
from .terms import Term, to_poly, from_poly, const, s_sub, s_add, meta, is_num_const

INF = float('inf')


class Ctx:
    """Facts that hold at the current program point."""

    def __init__(self, facts=None):
        self.ge = []          # poly terms known >= 0
        self.gt = []          # poly terms known > 0
        self.eq = []          # poly terms known == 0
        self.ne = []
        self.truths = {}      # boolean term -> bool
        if facts:
            for f in facts:
                self.add(*f)

    def add(self, cond, val):
        k = cond.op
        self.truths[cond] = val
        if k == 'ge0':
            if val:
                self.ge.append(cond.args[0])
            else:
                self.gt.append(tm.s_neg(cond.args[0]))
        elif k == 'eq0':
            (self.eq if val else self.ne).append(cond.args[0])


CUR = [Ctx()]
_CACHE = {}


def set_ctx(facts):
    """facts: frozenset/tuple of (cond, bool)."""
    key = facts
    c = _CACHE.get(key)
    if c is None:
        c = Ctx(facts)
        if len(_CACHE) > 5000:
            _CACHE.clear()
        _CACHE[key] = c
    CUR[0] = c
    return c


def is_int(t):
    """Provably integer valued."""
    if t.op == 'const':
        v = t.args[1]
        return isinstance(v, int)
    if t.op == 'atom':
        return meta(t).get('kind') == 'int'
    if t.op == 'poly':
        for m, c in t.args[0]:
            if c.denominator != 1:
                return False
            for a, e in m:
                if e < 0 or not is_int(a):
                    return False
        return True
    if t.op in ('max', 'min'):
        return all(is_int(a) for a in t.args[0])
    if t.op == 'ite':
        return is_int(t.args[1]) and is_int(t.args[2])
    if t.op == 'phi':
        return tm.PHI_KIND.get(t) == 'int'
    if t.op in ('floordiv', 'len', 'mod', 'size', 'toint'):
        return True
    if t.op == 'index':
        return arr_is_int(t.args[0])
    return False


def arr_is_int(t):
    if t.op == 'atom':
        return meta(t).get('dtype') == 'int'
    if t.op in ('arange', 'argsort', 'choice'):
        return True
    if t.op == 'carr':
        return all(is_int(x) for x in t.args[0])
    return False


def interval(a, depth):
    """(lo, hi) numeric bounds for an atom-like term."""
    lo, hi = -INF, INF
    if a.op == 'const' and is_num_const(a):
        v = tm.frac(a.args[1])
        return v, v
    if a.op == 'atom':
        m = meta(a)
        lo = m.get('lo', lo)
        hi = m.get('hi', hi)
    elif a.op in ('sumsq', 'abs', 'sqrt', 'len', 'size'):
        lo = 0
    elif a.op == 'exp':
        lo = 0
    elif a.op == 'index':
        b = a.args[0]
        if b.op == 'atom':
            m = meta(b)
            lo = m.get('elo', lo)
            hi = m.get('ehi', hi)
    elif a.op == 'sum' and a.shape == ():
        if HOOK_NONNEG[0] is not None and depth > 0 and HOOK_NONNEG[0](a.args[0]):
            lo = 0
    elif a.op == 'poly':
        return pinterval(to_poly(a), depth - 1)
    elif a.op == 'grp':
        return pinterval(to_poly(a.args[0]), depth - 1)
    elif a.op == 'max' and depth > 0:
        ivs = [interval(x, depth - 1) for x in a.args[0]]
        return max(i[0] for i in ivs), max(i[1] for i in ivs)
    elif a.op == 'min' and depth > 0:
        ivs = [interval(x, depth - 1) for x in a.args[0]]
        return min(i[0] for i in ivs), min(i[1] for i in ivs)
    elif a.op == 'ite' and depth > 0:
        i1, i2 = interval(a.args[1], depth - 1), interval(a.args[2], depth - 1)
        return min(i1[0], i2[0]), max(i1[1], i2[1])
    elif a.op == 'phi':
        m = tm.PHI_BOUNDS.get(a)
        if m:
            lo, hi = m
    # single-atom facts
    ctx = CUR[0]
    for strict, lst in ((False, ctx.ge), (True, ctx.gt)):
        for f in lst:
            p = to_poly(f)
            if len(p) <= 2 and ((a, 1),) in p and all(m in (((a, 1),), ()) for m in p):
                c = p[((a, 1),)]
                d = p.get((), Fraction(0))
                b = -d / c
                if strict and is_int(a) and b.denominator == 1:
                    b = b + 1 if c > 0 else b - 1
                if c > 0:
                    lo = max(lo, b)
                else:
                    hi = min(hi, b)
    for f in ctx.eq:
        p = to_poly(f)
        if len(p) <= 2 and ((a, 1),) in p and all(m in (((a, 1),), ()) for m in p):
            b = -p.get((), Fraction(0)) / p[((a, 1),)]
            lo, hi = max(lo, b), min(hi, b)
    return lo, hi


HOOK_NONNEG = [None]


def _imul(x, y):
    def mul(a, b):
        if a == 0 or b == 0:
            return 0
        return a * b
    vals = [mul(x[0], y[0]), mul(x[0], y[1]), mul(x[1], y[0]), mul(x[1], y[1])]
    return min(vals), max(vals)


def _ipow(iv, e):
    if e < 0:
        iv = _ipow(iv, -e)
        if iv[0] > 0:
            hi = Fraction(1) / Fraction(iv[0]) if iv[0] != INF else 0
            lo = 0 if iv[1] == INF else Fraction(1) / Fraction(iv[1])
            return lo, hi
        if iv[0] == 0:
            return (0 if iv[1] == INF else Fraction(1) / Fraction(iv[1])), INF
        return -INF, INF
    r = (1, 1)
    for _ in range(e):
        r = _imul(r, iv)
    if e % 2 == 0 and e:
        r = (max(r[0], 0), r[1])
    return r


def pinterval(p, depth=3):
    lo = hi = Fraction(0)
    for m, c in p.items():
        iv = (1, 1)
        for a, e in m:
            iv = _imul(iv, _ipow(interval(a, depth), e))
        iv = _imul(iv, (c, c))
        lo = lo + iv[0] if lo != -INF and iv[0] != -INF else -INF
        hi = hi + iv[1] if hi != INF and iv[1] != INF else INF
    return lo, hi


def prove_ge0(t, depth=3, strict=False):
    """t >= 0 (or > 0) provable at the current point."""
    if isinstance(t, Term) and t.op == 'const':
        if not is_num_const(t):
            v = t.args[1]
            if isinstance(v, bool):
                return v if strict else True
            if isinstance(v, float):
                return v > 0
            return False
        v = tm.frac(t.args[1])
        return v > 0 if strict else v >= 0
    return _prove(to_poly(t), depth, strict, frozenset())


def _shifted(p, strict):
    """Write every atom with a finite lower bound b as b + a', a' >= 0, and look for a negative coefficient."""
    if len(p) > 12 or not any(sum(e for _, e in m) > 1 for m in p):
        return False
    lows = {}
    for m in p:
        for a, e in m:
            if e < 0:
                return False
            if a not in lows:
                lows[a] = interval(a, 2)[0]
                if lows[a] == -INF:
                    return False
    q = {}
    for m, c in p.items():
        r = {(): c}
        for a, e in m:
            f = {((a, 1),): Fraction(1)}
            if lows[a]:
                f[()] = Fraction(lows[a])
            for _ in range(e):
                r = tm.pmul(r, f)
        q = tm.padd(q, r)
    if any(c < 0 for c in q.values()):
        return False
    return not strict or q.get((), 0) > 0


def prove_gt0(t, depth=3):
    return prove_ge0(t, depth, True)


def _prove(p, depth, strict, seen):
    if not p:
        return not strict
    try:
        lo, hi = pinterval(p)
    except (OverflowError, ZeroDivisionError):
        return False
    if lo > 0 or (lo >= 0 and not strict):
        return True
    if _shifted(p, strict):
        return True
    t = from_poly(p)
    if strict and lo == 0 and is_int(t) is False and len(p) == 1:
        # product of provably positive factors
        (m, c), = p.items()
        if c > 0 and all(e % 2 == 0 and False or _prove(to_poly(a), depth - 1, True, seen) if a is not t else False
                         for a, e in m):
            return True
    if depth <= 0 or hi < 0 or t in seen:
        return False
    seen = seen | {t}
    if strict and is_int(t):
        q = tm.padd(p, {(): Fraction(-1)})
        return _prove(q, depth, False, seen)
    ctx = CUR[0]
    for f in ctx.ge:
        fp = to_poly(f)
        for lam in _ratios(p, fp):
            if _prove(tm.padd(p, tm.pscale(fp, -lam)), depth - 1, strict, seen):
                return True
    for f in ctx.gt:
        fp = to_poly(f)
        if is_int(f):
            fp = tm.padd(fp, {(): Fraction(-1)})
        for lam in _ratios(p, fp):
            if _prove(tm.padd(p, tm.pscale(fp, -lam)), depth - 1, strict and is_int(f), seen):
                return True
    for f in ctx.eq:
        fp = to_poly(f)
        for lam in _ratios(p, fp, both=True):
            if _prove(tm.padd(p, tm.pscale(fp, -lam)), depth - 1, strict, seen):
                return True
    # bounds relative to other terms, and case analysis on max/min/ite
    for m, c in list(p.items()):
        for a, e in m:
            if e != 1:
                continue
            rest = tuple(x for x in m if x[0] is not a)
            restp = {rest: c}
            if a.op in ('max', 'min', 'ite'):
                if a.op == 'ite':
                    alts, need_all = list(a.args[1:3]), True
                else:
                    alts = list(a.args[0])
                    rlo, rhi = pinterval(restp)
                    if rlo >= 0:
                        need_all = a.op == 'min'
                    elif rhi <= 0:
                        need_all = a.op == 'max'
                    else:
                        need_all = True
                res = []
                for alt in alts:
                    q = tm._subst_poly((tuple((mm, cc) for mm, cc in p.items()),)) if False else _replace(p, a, alt)
                    ok = _prove(q, depth - 1, strict, seen)
                    res.append(ok)
                    if ok and not need_all:
                        return True
                    if not ok and need_all:
                        break
                if need_all and res and all(res) and len(res) == len(alts):
                    return True
            mt = meta(a)
            rel = mt.get('ge') or mt.get('le')
            if rel:
                rlo, rhi = pinterval(restp)
                cands = mt.get('ge', ()) if rlo >= 0 else (mt.get('le', ()) if rhi <= 0 else ())
                for b in cands:
                    if _prove(_replace(p, a, b), depth - 1, strict, seen):
                        return True
    return False


def _replace(p, a, b):
    r = {}
    pb = to_poly(b)
    for m, c in p.items():
        q = {(): c}
        hit = False
        for x, e in m:
            if x is a and e == 1:
                q = tm.pmul(q, pb)
                hit = True
            else:
                q = tm.pmul(q, {((x, e),): Fraction(1)})
        r = tm.padd(r, q)
    return r


def _ratios(p, f, both=False):
    out = []
    for m, c in f.items():
        if m and m in p:
            lam = p[m] / c
            if lam > 0 or both:
                if lam not in out:
                    out.append(lam)
    return out


def prove_eq(a, b):
    if a is b:
        return True
    d = s_sub(a, b)
    if is_num_const(d):
        return tm.frac(d.args[1]) == 0
    p = to_poly(d)
    for f in CUR[0].eq:
        fp = to_poly(f)
        for lam in _ratios(p, fp, both=True):
            if not tm.padd(p, tm.pscale(fp, -lam)):
                return True
    return prove_ge0(d, 2) and prove_ge0(tm.s_neg(d), 2)


def prove_ne(a, b):
    d = s_sub(a, b)
    if is_num_const(d):
        return tm.frac(d.args[1]) != 0
    p = to_poly(d)
    for f in CUR[0].ne:
        fp = to_poly(f)
        for lam in _ratios(p, fp, both=True):
            if not tm.padd(p, tm.pscale(fp, -lam)):
                return True
    return prove_ge0(d, 2, True) or prove_ge0(tm.s_neg(d), 2, True)
