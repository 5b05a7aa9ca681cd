"""Which arrays have non-negative entries and unit sums: an inductive argument over the values of an analysed session.

sums(t, ax): the common sum of t along ax, as a scalar term, when it is the same for every slice.
pos(t): are all entries of t non-negative?
Loop values are dealt with by induction: the property is assumed at the head, and shown for the value at the entry and for
the value on the back edge.  Sto.why holds the subterm at which an argument stopped, Sto.wrong whether the property is
known not to hold there."""
from . import terms as tm
from . import arrays as ar
from . import prove, nf
from .terms import Term, const, s_add, s_sub, s_mul, s_neg
from .interp import PHIINFO
from .search import by_cases, unproject, plain, transparent, walk, unbounded, flags

ONE, ZERO = const(1), const(0)


class Stop(Exception):
    """The argument stops at a term: args are the term, why, and whether the property fails there."""


def stop(t, why, wrong=None):
    raise Stop(t, why, wrong)


class Sto:
    def __init__(self, x, inputs=()):
        self.x = x
        self.base = frozenset(x.st.facts)
        self.ctx = []
        self.assumed = {}
        self.done = {}
        self.ranges = {}
        self.inputs = set(inputs)                    # arrays that can hold any values
        self.nonneg, self.unit = set(), {}
        for f, v in self.base:
            self.read(f, v)

    def read(self, f, v):
        while f.op == 'not':
            f, v = f.args[0], not v
        if f.op == 'eq0' and not v and isinstance(f.args[0], Term):
            f, v = f.args[0], True
        if not v:
            return
        if f.op == 'forall':
            f = f.args[0]
        if f.op == 'ew' and f.args[0] == 'le' and ar.is_zero(f.args[1]):
            self.nonneg.add(f.args[2])
        one = lambda q: q.op in ('ones', 'const') and (q.op == 'ones' or prove.prove_eq(q, ONE))
        if f.op == 'ew' and f.args[0] == 'isclose' or f.op == 'isclose':
            a = f.args[1:3] if f.op == 'ew' else f.args[:2]
            s_ = [q for q in a if isinstance(q, Term) and q.op in ('sum', 'poly') and not one(q)]
            if len(s_) == 1 and any(isinstance(q, Term) and one(q) for q in a):
                q = s_[0]
                if q.op == 'poly':
                    p = tm.to_poly(q)
                    if len(p) == 1:
                        (m, c), = p.items()
                        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sum':
                            q = m[0][0]
                if q.op == 'sum':
                    self.unit.setdefault(q.args[0], set()).add(q.args[1] or None)

    def lemma(self, t, ax):
        self.unit.setdefault(t, set()).add((ax,))
        self.nonneg.add(t)

    # ------------------------------------------------------------ entry points

    def stochastic(self, t, ax):
        """(True | False | None, reason) for: t is non-negative with unit sums along ax."""
        self.x.I.sync(self.x.st)
        r = []
        for what, f in (('sums along axis %s' % ax, lambda: self.unit_sums(t, ax)), ('signs', lambda: self.pos(t))):
            self.assumed, self.ctx = {}, []
            try:
                f()
                r.append((True, ''))
            except Stop as e:
                u, why, wrong = e.args
                r.append((False if wrong else None, '%s: %s at %s' % (what, why, tm.show(u)[:160])))
            finally:
                self.x.I.sync(self.x.st)
        for v in (False, None):
            for ok, why in r:
                if ok is v:
                    return ok, why
        return True, ''

    def unit_sums(self, t, ax):
        if t.op in ('store', 'ite', 'carr') and self.by_entries(t, ax, len(t.shape)) is not None:
            return
        v = self.sums(t, ax)
        if not self.equal(v, ONE):
            self.differs(t, v)

    def differs(self, t, v):
        p = tm.to_poly(v)
        free_ = all(f.op in ('atom', 'phi', 'const') for m in p for f, e in m)
        stop(t, 'the sums are %s' % tm.show(v)[:80], True if free_ else None)

    def equal(self, a, b):
        prove.set_ctx(self.base | frozenset(self.ctx))
        if prove.prove_eq(a, b):
            return True
        d = s_sub(a, b)
        cs = [{}]
        for g in flags(d)[:4]:
            cs = [dict(m, **{}) | {g: v} for m in cs for v in (const(True), const(False))]
        return all(self.vanishes(tm.subst(d, m)) for m in cs)

    def vanishes(self, d):
        c = self.total_of_parts(d)
        prove.set_ctx(self.base | frozenset(self.ctx))
        ok, _ = by_cases(c, lambda fs, v: self._zero(fs, v))
        return ok

    def _zero(self, fs, v):
        prove.set_ctx(self.base | frozenset(self.ctx) | frozenset(fs))
        return prove.prove_eq(v, ZERO)

    # ------------------------------------------------------------ induction

    def by_induction(self, key, p, claim):
        """claim(t) raises Stop or returns; p is a loop value."""
        if key in self.assumed:
            return self.assumed[key]
        if key in self.done:
            return self.done[key]
        E, B = PHIINFO[p][0], PHIINFO[p][1]
        if not isinstance(E, Term) or not isinstance(B, Term):
            stop(p, 'a loop value without summary')
        save = self.ctx
        self.ctx = []
        outer = not self.assumed
        try:
            v = claim(E)
            self.assumed[key] = v
            w = claim(B)
        finally:
            self.ctx = save
            self.assumed.pop(key, None)
        if v is not None and not self.equal(v, w):
            stop(B, 'after an iteration the sums are %s' % tm.show(w)[:60])
        if outer:
            self.done[key] = v
        return v

    def under(self, c, v, f):
        save = list(self.ctx)
        out = []
        for fs in plain([(c, v)]):
            self.ctx = save + list(fs)
            try:
                out.append(f())
            finally:
                self.ctx = save
        return out

    # ------------------------------------------------------------ sums

    def sums(self, t, ax):
        nd = len(t.shape) if t.shape is not None else None
        if nd is None or not 0 <= ax < nd:
            stop(t, 'shape')
        for ax2 in self.unit.get(t, ()):
            if ax2 == (ax,) or ax2 is None and nd == 1:
                return ONE
        if nd == 2 and (1 - ax,) in self.unit.get(t, ()) and not ar.is_one(t.shape[1 - ax]):
            stop(t, 'the sums along the other axis are one, not these', True)
        op = t.op
        f = getattr(self, 's_' + op, None)
        if f is not None:
            return f(t, ax, nd)
        if ar.is_one(t.shape[ax]) and nd == 1:
            return ar.index(t, (('i', ZERO),))
        self.leaf(t, ax, nd)

    def leaf(self, t, ax, nd):
        if t.op == 'draw':
            if nd == 1:
                return ar.reduce_sum(t, None)
            stop(t, 'random numbers', True)
        if t in self.inputs:
            stop(t, 'values given by the caller', True)
        stop(t, 'not known')

    def s_draw(self, t, ax, nd):
        if nd == 1:
            return ar.reduce_sum(t, None)
        self.leaf(t, ax, nd)

    def s_phi(self, t, ax, nd):
        return self.by_induction((t, ax), t, lambda u: self.sums(u, ax))

    def s_ite(self, t, ax, nd):
        c, a, b = t.args
        va = self.under(c, True, lambda: self.sums(a, ax))
        vb = self.under(c, False, lambda: self.sums(b, ax))
        if all(self.equal(va[0], v) for v in va[1:] + vb):
            return va[0]
        return ar.ite(c, va[0], vb[0])

    def s_lin(self, t, ax, nd):
        tot, bad = ZERO, []
        for k, c in t.args[0]:
            try:
                tot = s_add(tot, s_mul(c, self.sums(k, ax)))
            except Stop as e:
                bad.append((k, c, e))
        if not bad:
            return tot
        if len(bad) == 1:
            k, c, e = bad[0]
            raise e
        for k, c, e in bad:
            if k.op == 'phi' and e.args[2]:              # the loop value itself is not stochastic
                raise e
        self.free(t, ax, nd)
        stop(t, 'a combination of %s' % ', '.join(tm.show(k)[:60] for k, _, _ in bad))

    def free(self, t, ax, nd):
        """Stop with a refutation when the sums of t are polynomials in the data."""
        try:
            if nd == 2 and ax == 1:
                N = nf.matrix(ar.dot(t, ar.ones((t.shape[1],))))
            elif nd == 2:
                N = nf.matrix(ar.dot(ar.T(t), ar.ones((t.shape[0],))))
            elif nd == 1:
                N = nf.scalar(ar.reduce_sum(t, None))
            else:
                return
        except (nf.Hard, nf.Order):
            return
        if not N or not transparent(N, nd == 1):
            return
        ws = [w for k in N for w in k] if nd == 1 else list(N)
        if any(nf.BYID[l[0]] in self.inputs for w in ws for l in w):
            stop(t, 'the sums are polynomials in the data', True)

    def s_ones(self, t, ax, nd):
        return t.shape[ax]

    def s_full(self, t, ax, nd):
        return s_mul(t.args[1], t.shape[ax])

    def s_eye(self, t, ax, nd):
        return ONE

    def s_simproj(self, t, ax, nd):
        if nd == 1:
            return ONE
        stop(t, 'projection of a matrix')

    def s_T(self, t, ax, nd):
        return self.sums(t.args[0], nd - 1 - ax)

    def s_matpow(self, t, ax, nd):
        v = self.sums(t.args[0], ax)
        if not self.equal(v, ONE):
            stop(t, 'a power')
        return ONE

    def s_perm(self, t, ax, nd):
        a, p = t.args
        return self.sums(a, p[ax])

    def s_dot(self, t, ax, nd):
        a, b = t.args
        na, nb = len(a.shape), len(b.shape)
        if nd == 2 and na == nb == 2 or nd == 1:
            last = ax == nd - 1
            if nd == 2 and ax == 1:
                return s_mul(self.sums(b, 1), self.sums(a, 1))
            if nd == 2:
                return s_mul(self.sums(a, 0), self.sums(b, 0))
            if na == 2 and nb == 1:                      # A v
                return s_mul(self.sums(a, 0), self.sums(b, 0))
            if na == 1 and nb == 2:                      # v A
                return s_mul(self.sums(b, 1), self.sums(a, 0))
        stop(t, 'a product')

    def s_lam(self, t, ax, nd):
        bv, n, pos, body = t.args[:4]
        if ax == pos:
            self.other(t, ax, nd)
            stop(t, 'slices along the axis of the sums', None)
        v = self.sums(body, ax - (1 if ax > pos else 0))
        if bv in tm.free_atoms(v):
            stop(t, 'the sums depend on the slice')
        return v

    def s_stack(self, t, ax, nd):
        ps = t.args[0]
        if ax == 0:
            if nd == 1:
                v = ZERO
                for p in ps:
                    v = s_add(v, p)
                return v
            self.other(t, ax, nd)
            stop(t, 'slices along the axis of the sums')
        vs = [self.sums(p, ax - 1) for p in ps]
        return self.same(t, vs)

    def other(self, t, ax, nd):
        """A matrix that is made to sum to one along the other axis does not along this one."""
        if nd != 2:
            return
        oth = 1 - ax
        if ar.is_one(t.shape[oth]):
            return
        if t.op == 'lam' and t.args[3].op == 'simproj' or t.op == 'stack' and all(p.op == 'simproj' for p in t.args[0]):
            if unproject(t) is not None and all(q in self.inputs or q.op != 'atom' or True for q in ()):
                stop(t, 'the projections run along the other axis', True)

    def same(self, t, vs):
        if all(self.equal(vs[0], v) for v in vs[1:]):
            return vs[0]
        stop(t, 'the sums of the parts differ: %s' % ', '.join(tm.show(v)[:40] for v in vs))

    def s_cat(self, t, ax, nd):
        ps, axis = t.args
        vs = [self.sums(p, ax) for p in ps]
        if axis == ax:
            v = ZERO
            for q in vs:
                v = s_add(v, q)
            return v
        return self.same(t, vs)

    def s_index(self, t, ax, nd):
        a, ix = t.args
        if any(e[0] == 'n' for e in ix):
            ext = [k for k, e in enumerate([e for e in ix if e[0] != 'i'])]
            kept = [e for e in ix if e[0] != 'i']
            if kept[ax][0] == 'n':
                b = ar.index(t, tuple(('i', ZERO) if k == ax else ('a',) for k in range(nd)))
                if b.shape == ():
                    return b
                stop(t, 'a new axis')
        src, j = None, 0
        k = 0                                             # axis of a
        for e in ix:
            if e[0] == 'n':
                j += 1
                continue
            if e[0] != 'i':
                if j == ax:
                    src = (k, e)
                j += 1
            k += 1
        if src is None and len(ix) <= len(a.shape):
            extra = ax - j
            if extra >= 0:
                src = (k + extra, ('a',))
        if src is None or src[1][0] != 'a':
            stop(t, 'a part of the slices that are summed', self.partly(a, src))
        return self.sums(a, src[0])

    def partly(self, a, src):
        return None

    def s_bcast(self, t, ax, nd):
        a = t.args[0]
        off = nd - len(a.shape)
        if ax < off or ar.is_one(a.shape[ax - off]):
            b = ar.index(t, tuple(('i', ZERO) if k == ax else ('a',) for k in range(nd)))
            if b.shape == ():
                return s_mul(b, t.shape[ax])
            stop(t, 'repeated values')
        return self.sums(a, ax - off)

    def s_carr(self, t, ax, nd):
        items, shp = t.args
        if nd == 1:
            v = ZERO
            for p in items:
                v = s_add(v, p)
            return self.total_of_parts(v)
        dims = [int(tm.cval(d)) for d in shp]
        vs = []

        def rec(prefix, k):
            if k == nd:
                v = ZERO
                for j in range(dims[ax]):
                    ix = list(prefix)
                    ix[ax] = j
                    pos = 0
                    for d, i in zip(dims, ix):
                        pos = pos * d + i
                    v = s_add(v, items[pos])
                vs.append(self.total_of_parts(v))
                return
            for i in ([0] if k == ax else range(dims[k])):
                rec(prefix + [i], k + 1)
        rec([], 0)
        return self.same(t, vs)

    def total_of_parts(self, v):
        """Entries of one vector that add up to its sum."""
        p = tm.to_poly(v)
        groups = {}
        for m, c in p.items():
            for i, (f, e) in enumerate(m):
                if f.op == 'index' and e == 1 and f.shape == ():
                    a, ix = f.args
                    js = [k for k, q in enumerate(ix) if q[0] == 'i' and tm.is_num_const(q[1])]
                    for k in js:
                        d = a.shape[k] if a.shape else None
                        if d is not None and tm.is_num_const(d):
                            key = (a, ix[:k], ix[k + 1:], k, m[:i] + m[i + 1:], c)
                            groups.setdefault(key, {})[int(tm.cval(ix[k][1]))] = m
        for (a, lo, hi, k, rest, c), ms in groups.items():
            if len(ms) == int(tm.cval(a.shape[k])) and all(m in p for m in ms.values()):
                part = ar.index(a, lo + (('a',),) + hi)
                try:
                    s_ = self.sums(part, 0)
                except Stop:
                    continue
                q = dict(p)
                for m in ms.values():
                    q.pop(m, None)
                return self.total_of_parts(s_add(tm.from_poly(q), s_mul(tm.from_poly({rest: c}), s_)))
        return v

    def s_mul(self, t, ax, nd):
        fs = list(t.args[0])
        # division of every slice by its sum
        for f in fs:
            b = f.args[0] if f.op == 'bcast' else f
            off = nd - len(b.shape)
            if ax >= off and not ar.is_one(b.shape[ax - off]):
                continue
            rest = [g for g in fs if g is not f]
            m = rest[0]
            for g in rest[1:]:
                m = ar.mul(m, g)
            inner = drop(b)
            if inner.op == 'ew' and inner.args[0] == 'recip':
                d = drop(inner.args[1])
                if d.op == 'sum':
                    if d.args[0] is m and d.args[1] == (ax,):
                        return ONE
                    if nd == 2 and d.args[0] is ar.T(m) and d.args[1] == (1 - ax,):
                        return ONE
                    if d.args[0] is m and len(m.shape) == 2 and d.args[1] == (1 - ax,) and m.op == 'draw':
                        stop(t, 'divided by the sums along the other axis', True)
            w = self.const_along(f)
            if w is not None:
                return s_mul(self.sums(m, ax), w)
        # division by sums taken over the other axis
        for f in fs:
            inner = drop(f.args[0] if f.op == 'bcast' else f)
            if inner.op == 'ew' and inner.args[0] == 'recip':
                d = drop(inner.args[1])
                rest = [g for g in fs if g is not f]
                if d.op == 'sum' and len(rest) == 1 and d.args[0] is rest[0] and rest[0].op == 'draw':
                    stop(t, 'divided by the sums along the other axis', True)
        stop(t, 'a product of entries')

    def const_along(self, f):
        b = f
        while b.op == 'bcast':
            b = b.args[0]
        return b if b.shape == () else None

    def s_ew(self, t, ax, nd):
        nm = t.args[0]
        if nm == 'where':
            c, a, b = t.args[1:4]
            if self.along(c, ax, nd):
                return self.same(t, [self.sums(a, ax), self.sums(b, ax)])
        lp = clipped_lp(t)
        if lp:
            return ONE                                    # the solution of the linear program: see its constraints
        if nm == 'eq' and nd == 2:
            return self.onehot_eq(t, ax)
        stop(t, 'an elementwise operation')

    def onehot_eq(self, t, ax):
        stop(t, 'a comparison')

    def s_reshape(self, t, ax, nd):
        if clipped_lp(t):
            return ONE
        stop(t, 'a rearrangement')

    def along(self, c, ax, nd):
        """Is the condition the same for all entries of a slice?"""
        while c.op == 'bcast':
            b = c.args[0]
            off = nd - len(b.shape)
            if ax < off or ar.is_one(b.shape[ax - off]):
                return True
            c = b
        return False

    def s_store(self, t, ax, nd):
        a, ix, v = t.args
        ix = tuple(ix) + (('a',),) * (nd - len(ix))
        if ix[ax][0] == 'a':
            w = v
            pos = sum(1 for e in ix[:ax] if e[0] not in ('i',))
            if v.shape == ():
                sv = s_mul(v, t.shape[ax])
            else:
                off = sum(1 for e in ix if e[0] != 'i') - len(v.shape)
                if pos - off < 0 or off > 0 and pos < off:
                    stop(t, 'a store')
                sv = self.sums(v, pos - off)
            try:
                sa = self.sums(a, ax)
            except Stop:
                sa = None
            if sa is None or not self.equal(sa, sv):
                if not self.covers(a, ix, nd, ax, sv):
                    stop(t, 'stored slices sum to %s, the others to %s' % (tm.show(sv)[:40], tm.show(sa)[:40] if sa is not None else '?'),
                         None)
            return sv
        v = self.by_entries(t, ax, nd)
        if v is not None:
            return v
        v = self.one_hot_store(t, ax, nd)
        if v is not None:
            return v
        stop(t, 'single entries are replaced')

    def one_hot_store(self, t, ax, nd):
        """A[0, j0] = v, A[1, j1] = v, ... on zeros, one entry in every slice."""
        oth = 1 - ax
        if nd != 2 or not tm.is_num_const(t.shape[oth]):
            return None
        rows, val, a = set(), None, t
        while a.op == 'store':
            b, ix, v = a.args
            if len(ix) != 2 or ix[0][0] != 'i' or ix[1][0] != 'i' or v.shape != () or not tm.is_num_const(ix[oth][1]):
                return None
            if val is not None and not self.equal(v, val):
                return None
            i = tm.cval(ix[oth][1])
            if i in rows:
                return None
            rows.add(i)
            val, a = v, b
        return val if ar.is_zero(a) and len(rows) == tm.cval(t.shape[oth]) else None

    def by_entries(self, t, ax, nd):
        """Sums of a small matrix from its entries."""
        if nd != 2 or not all(tm.is_num_const(d) and tm.cval(d) <= 4 for d in t.shape):
            return None
        n, m = int(tm.cval(t.shape[ax])), int(tm.cval(t.shape[1 - ax]))
        vs = []
        for j in range(m):
            v = ZERO
            for i in range(n):
                e = ar.index(t, (('i', const(i)), ('i', const(j))) if ax == 0 else (('i', const(j)), ('i', const(i))))
                v = s_add(v, e)
            for fs, u in ways(v):
                if self.sums_to_one(fs, u):
                    continue
                if self.counts_only(u):
                    stop(t, 'the entries of slice %d sum to %s' % (j, tm.show(u)[:200]), True)
                return None
            vs.append(v)
        return ONE

    def sums_to_one(self, fs, v):
        prove.set_ctx(self.base | frozenset(self.ctx) | frozenset(fs))
        if prove.prove_eq(v, ONE):
            return True
        den = {}
        for m in tm.to_poly(v):
            for f, e in m:
                if isinstance(e, int) and e < 0 or not isinstance(e, int) and e < 0:
                    den[f] = max(den.get(f, 0), -e)
        d = ONE
        for f, e in den.items():
            d = s_mul(d, tm.s_pow(f, const(e)))
        mp = {}
        q = plain_counts(s_mul(s_sub(v, ONE), d))
        for L in {a.args[i] for a in walk(q) if a.op == 'ew' and a.args[0] == 'eq' for i in (1, 2)}:
            K = label_range(L)
            if K is None or not tm.is_num_const(K):
                continue
            last = ar.ew('eq', L, ar.full(L.shape, const(int(tm.cval(K)) - 1)))
            rest = ar.ones(L.shape)
            for i in range(int(tm.cval(K)) - 1):
                rest = ar.sub(rest, ar.ew('eq', L, ar.full(L.shape, const(i))))
            mp[last] = rest
        nf.fresh()
        try:
            A = nf.scalar(tm.subst(q, mp))
            return not nf.prune(A)
        except (nf.Hard, nf.Order):
            return False
        finally:
            nf.fresh()

    def counts_only(self, v):
        """Is v made of counts of labels only?"""
        fs = [f for m in tm.to_poly(plain_counts(v)) for f, e in m]
        return all(f.op in ('atom', 'const', 'sum') for f in fs) and all(
            a.op in ('sum', 'mul', 'index', 'lin', 'ones', 'full', 'const', 'atom', 'poly', 'kmlabels', 'kmeans', 'seed') or
            a.op == 'ew' and a.args[0] == 'eq' and bare_equality(a) for f in fs for a in walk(f))

    def covers(self, a, ix, nd, ax, sv):
        """The stored slices and the slices stored before make up the whole array."""
        rest = [k for k in range(nd) if k != ax and ix[k][0] != 'a']
        if len(rest) != 1:
            return not rest
        k = rest[0]
        e = ix[k]
        lo, hi = (e[1], s_add(e[1], ONE)) if e[0] == 'i' else (e[1], e[2]) if e[0] == 's' and len(e) == 3 else (None, None)
        if lo is None:
            return False
        spans = [(lo, hi)]
        while a.op == 'store':
            b, jx, v = a.args
            jx = tuple(jx) + (('a',),) * (nd - len(jx))
            if any(jx[q][0] != 'a' for q in range(nd) if q != k):
                return False
            e = jx[k]
            if e[0] not in 'si' or len(e) > 3:
                return False
            pos = sum(1 for q in jx[:ax] if q[0] != 'i')
            if v.shape == () or len(v.shape) != sum(1 for q in jx if q[0] != 'i') or not self.equal(self.sums(v, pos), sv):
                return False
            spans.append((e[1], s_add(e[1], ONE)) if e[0] == 'i' else (e[1], e[2]))
            a = b
        prove.set_ctx(self.base | frozenset(self.ctx))
        at = ZERO
        for _ in spans:
            nxt = [h for l, h in spans if prove.prove_ge0(s_sub(at, l)) and prove.prove_gt0(s_sub(h, at))]
            if not nxt:
                break
            at = nxt[0]
        return prove.prove_ge0(s_sub(at, a.shape[k]))

    def s_scatter(self, t, ax, nd):
        a, bv, lo, hi, ix, v = t.args
        r = one_hot_scatter(t, ax, nd)
        if r is not None:
            return r
        stop(t, 'entries set in a loop')

    # ------------------------------------------------------------ signs

    def pos(self, t):
        if t.shape == ():
            return self.pos_scalar(t)
        if t in self.nonneg:
            return
        f = getattr(self, 'p_' + t.op, None)
        if f is None:
            if t in self.inputs:
                stop(t, 'values given by the caller', True)
            stop(t, 'not known to be non-negative')
        f(t)

    def pos_scalar(self, c):
        rs = self.range_facts(c)

        def test(fs, v):
            prove.set_ctx(self.base | frozenset(self.ctx) | frozenset(rs) | frozenset(fs))
            return prove.prove_ge0(v) or self.opaque_pos(v) or not self.negative_group(v)
        ok, w = by_cases(c, test)
        if ok:
            return
        fs, v = w
        prove.set_ctx(self.base | frozenset(self.ctx) | frozenset(rs) | frozenset(fs))
        v = self.negative_group(v) or v
        wrong = prove.prove_gt0(s_neg(v)) or unbounded(v, fs) and not any(
            a.op in ('ext', 'count', 'kmlabels', 'kmpredict', 'scatter', 'call') for a in walk(v))
        if not wrong:
            wrong = any(self.ranges.get(p) is False for p in tm.free_atoms(v)) and all(
                f.op in ('phi', 'const') for m in tm.to_poly(v) for f, e in m)
        stop(c, 'the coefficient %s may be negative' % tm.show(v)[:80], True if wrong else None)

    def negative_group(self, v):
        """v as a combination of non-negative entries of arrays: a coefficient that is not shown to be non-negative, if any."""
        groups = {}
        for m, c in tm.to_poly(v).items():
            fs = [(f, e) for f, e in m if f.op == 'index' and f.shape == () and e == 1]
            f = fs[0] if len(fs) == 1 else None
            rest = tuple(q for q in m if q != f)
            groups.setdefault(f[0] if f else None, {})[rest] = c
        for f, p in groups.items():
            q = tm.from_poly(p)
            if f is not None:
                cur = prove.CUR[0]
                try:
                    self.pos(f.args[0])
                except Stop:
                    return v
                finally:
                    prove.CUR[0] = cur
            if not (prove.prove_ge0(q) or self.opaque_pos(q)):
                return q
        return None

    def opaque_pos(self, v):
        """Products of sums of non-negative entries."""
        p = tm.to_poly(v)
        for m, c in p.items():
            if c < 0:
                return False
            for f, e in m:
                if e % 2 == 0 if isinstance(e, int) else False:
                    continue
                if prove.prove_ge0(f):
                    continue
                if f.op in ('sum', 'trace', 'index') and f.args and isinstance(f.args[0], Term):
                    try:
                        self.pos(f.args[0])
                        continue
                    except Stop:
                        return False
                if f.op in ('count', 'draw'):
                    continue
                return False
        return True

    def range_facts(self, c, seen=None):
        """0 <= p <= 1 for the loop values in c for which this holds by induction."""
        out = []
        for p in sorted(tm.free_atoms(c), key=lambda q: q.id):
            if p.op == 'phi' and p.shape == () and self.unit_range(p):
                out += [(ar.ge0(p), True), (ar.ge0(s_sub(ONE, p)), True)]
        return out

    def unit_range(self, p):
        if p in self.ranges:
            return bool(self.ranges[p])
        self.ranges[p] = None
        E, B = PHIINFO[p][0], PHIINFO[p][1]
        if not isinstance(E, Term) or not isinstance(B, Term):
            return False
        inv = [(ar.ge0(p), True), (ar.ge0(s_sub(ONE, p)), True)]

        def test(fs, v):
            prove.set_ctx(self.base | frozenset(inv) | frozenset(fs))
            return prove.prove_ge0(v) and prove.prove_ge0(s_sub(ONE, v))
        ok, w = by_cases(E, test)
        if ok:
            ok, w = by_cases(B, test)
        if not ok:
            fs, v = w
            prove.set_ctx(self.base | frozenset(inv) | frozenset(fs))
            if v.op == 'const' or unbounded(v, fs) or prove.prove_gt0(s_sub(v, ONE)) or prove.prove_gt0(s_neg(v)) or (
                    v.op == 'poly' and tm.free_atoms(v) == {p} and not prove.prove_ge0(s_sub(ONE, v))):
                self.ranges[p] = False
                return False
            return False
        self.ranges[p] = True
        return True

    def p_phi(self, t):
        self.by_induction((t, 'pos'), t, lambda u: self.pos(u))

    def p_ite(self, t):
        c, a, b = t.args
        self.under(c, True, lambda: self.pos(a))
        self.under(c, False, lambda: self.pos(b))

    def p_lin(self, t):
        for k, c in t.args[0]:
            self_ok = None
            try:
                self.pos(k)
            except Stop as e:
                self_ok = e
            if self_ok is not None:
                self.free_sign(t)
                raise self_ok
            self.pos_scalar(c)

    def free_sign(self, t):
        try:
            if len(t.shape) > 2:
                return
            N = nf.matrix(t)
        except (nf.Hard, nf.Order):
            return
        if transparent(N, False) and any(nf.BYID[l[0]] in self.inputs and len(w) % 2 for w in N for l in w):
            stop(t, 'the entries are polynomials in the data', True)

    def p_simproj(self, t):
        return

    p_ones = p_eye = p_draw_ = p_count = p_simproj

    def p_draw(self, t):
        if t.args[0] in ('uniform', 'random_sample', 'random', 'rand') and len(t.args) <= 3:
            return
        stop(t, 'random numbers of both signs' if t.args[0] in ('normal', 'randn', 'standard_normal') else 'random numbers',
             True if t.args[0] in ('normal', 'randn', 'standard_normal') else None)

    def p_full(self, t):
        self.pos(t.args[1])

    def p_T(self, t):
        self.pos(t.args[0])

    p_perm = p_sum = p_matpow = p_reshape_ = p_bcast = p_sqrt_ = p_index_ = p_T

    def p_index(self, t):
        self.pos(t.args[0])

    def p_dot(self, t):
        for a in t.args:
            self.pos(a)

    def p_lam(self, t):
        self.pos(t.args[3])

    def p_stack(self, t):
        for a in t.args[0]:
            self.pos(a)

    p_cat = p_mul = p_carr = p_stack

    def p_store(self, t):
        a, ix, v = t.args
        try:
            self.pos(a)
        except Stop:
            if not overwritten(t):
                raise
        self.pos(v)

    def p_scatter(self, t):
        self.pos(t.args[0])
        self.pos(t.args[5])

    def p_empty(self, t):
        stop(t, 'uninitialised values')

    def p_reshape(self, t):
        if clipped_lp(t):
            return
        self.pos(t.args[0])

    def p_ew(self, t):
        nm = t.args[0]
        if nm in ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'not', 'abs', 'square', 'pow2', 'exp', 'sqrt', 'isclose', 'isnan'):
            return
        if clipped_lp(t):
            return
        ps = [a for a in t.args[1:] if isinstance(a, Term)]
        if nm == 'where':
            for a in ps[1:]:
                self.pos(a)
            return
        if nm == 'recip':
            return self.pos(ps[0])
        if nm in ('fmax', 'maximum'):
            first = None
            for a in ps:
                try:
                    return self.pos(a)
                except Stop as e:
                    first = first or e
            raise first
        if nm in ('fmin', 'minimum', 'clip'):
            for a in ps:
                self.pos(a)
            return
        stop(t, 'an elementwise operation')


def plain_counts(v):
    """Counts of labels as sums of products of comparisons."""
    mp = {}
    for a in walk(v):
        if a.op == 'count':
            mp[a] = ar.reduce_sum(a.args[0], None)
        elif a.op == 'ew' and a.args[0] in ('and', 'logical_and', 'bitand') and len(a.args) == 3:
            mp[a] = ar.mul(a.args[1], a.args[2])
    v = tm.subst(v, mp) if mp else v
    mp = {}
    for a in walk(v):
        if a.op == 'ew' and a.args[0] == 'eq':
            p, q = a.args[1:]
            if q.op == 'index':
                p, q = q, p
            if p.op == 'index' and p.args[0].op == 'kmlabels' and all(e[0] in 'as' for e in p.args[1]):
                c = constant_fill(q)
                if c is not None:
                    L = p.args[0]
                    mp[a] = ar.index(ar.ew('eq', L, ar.full(L.shape, c)), p.args[1])
    return tm.subst(v, mp) if mp else v


def constant_fill(t):
    """The constant every entry of t is, or None."""
    while t.op in ('bcast', 'index') and t.shape:
        t = t.args[0]
    if t.op == 'ones':
        return ONE
    if t.op == 'lin':
        c = dict(t.args[0])
        if not c:
            return ZERO
        if len(c) == 1 and next(iter(c)).op == 'ones':
            t = next(iter(c.values()))
    return t if isinstance(t, Term) and t.shape == () and tm.is_num_const(t) else None


def bare_equality(a):
    """A comparison of all labels with a number."""
    return any(p.op == 'kmlabels' for p in a.args[1:]) and any(constant_fill(p) is not None for p in a.args[1:])


def ways(v, fs=(), depth=6):
    """The values of a conditional scalar, with the conditions of each."""
    c = next((a for a in walk(v) if a.op == 'ite'), None)
    if c is None or depth == 0:
        return [(list(fs), v)]
    g = c.args[0]
    out = []
    for val in (True, False):
        out += ways(tm.subst(v, {g: const(val)}), list(fs) + [(g, val)], depth - 1)
    return out


def drop(t):
    """Without broadcasting and new axes."""
    while True:
        if t.op == 'bcast':
            t = t.args[0]
        elif t.op == 'index' and all(e[0] in 'an' for e in t.args[1]):
            t = t.args[0]
        else:
            return t


def clipped_lp(t):
    """A rearrangement of the solution of a linear program, possibly clipped."""
    n = 0
    while isinstance(t, Term) and n < 12:
        n += 1
        if t.op == 'lpvalue':
            return True
        if t.op in ('reshape', 'T', 'index', 'perm'):
            t = t.args[0]
        elif t.op == 'ew' and t.args[0] in ('fmin', 'fmax', 'minimum', 'maximum', 'clip'):
            ts = [a for a in t.args[1:] if isinstance(a, Term) and any(u.op == 'lpvalue' for u in walk(a))]
            if len(ts) != 1:
                return False
            t = ts[0]
        else:
            return False
    return False


def overwritten(t):
    """Do the stores of t replace every entry?  (One whole dimension, by slices.)"""
    nd = len(t.shape)
    spans, k, a = [], None, t
    while a.op == 'store':
        b, ix, v = a.args
        ix = tuple(ix) + (('a',),) * (nd - len(ix))
        ks = [i for i, e in enumerate(ix) if e[0] != 'a']
        if not ks:
            return True
        if len(ks) != 1 or k is not None and ks[0] != k or ix[ks[0]][0] not in 'si' or len(ix[ks[0]]) > 3:
            return False
        k = ks[0]
        e = ix[k]
        spans.append((e[1], s_add(e[1], ONE)) if e[0] == 'i' else (e[1], e[2]))
        a = b
    at = ZERO
    for _ in spans:
        nxt = [h for l, h in spans if prove.prove_ge0(s_sub(at, l)) and prove.prove_gt0(s_sub(h, at))]
        if not nxt:
            break
        at = nxt[0]
    return k is not None and prove.prove_ge0(s_sub(at, t.shape[k]))


def label_range(L):
    """Number of values of an array of labels, or None."""
    if L.op in ('kmlabels', 'kmpredict'):
        for a in walk(L):
            if a.op == 'kmeans':
                return a.args[1]
    if L.op == 'index' or L.op == 'toint':
        return label_range(L.args[0])
    return None


def one_hot_scatter(t, ax, nd):
    """for k in range(K): A[labels == k, k] = 1, or A[k, f(k)] = 1, on zeros."""
    a, bv, lo, hi, ix, v = t.args
    if not ar.is_zero(a) or nd != 2:
        return None
    v1 = v if v.shape == () else v.args[0] if v.op == 'full' else None
    val = v if v.shape == () else (ONE if v.op == 'ones' else v.args[1] if v.op == 'full' else None)
    if val is None:
        return None
    oth = 1 - ax
    if ix[oth] == ('i', bv) and ix[ax][0] == 'i' and prove.prove_eq(lo, ZERO) and prove.prove_eq(hi, t.shape[oth]):
        return val                                        # one entry in every slice
    if ix[ax] == ('i', bv) and ix[oth][0] == 'mask' and prove.prove_eq(lo, ZERO):
        m = ix[oth][1]
        if m.op == 'ew' and m.args[0] == 'eq':
            for L, q in ((m.args[1], m.args[2]), (m.args[2], m.args[1])):
                if bv in tm.free_atoms(L):
                    continue
                c = q.args[0] if q.op == 'bcast' else None
                if q.op == 'lin' and len(q.args[0]) == 1 and q.args[0][0][0].op == 'ones':
                    c = q.args[0][0][1]
                if q.op == 'full':
                    c = q.args[1]
                K = label_range(L)
                if c is bv and K is not None and prove.prove_eq(hi, K) and prove.prove_eq(hi, t.shape[ax]):
                    return val
    return None
