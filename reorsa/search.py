"""Line searches found in a session: the factors they move, the step, the trial points and the stopping test."""
from . import terms as tm
from . import arrays as ar
from . import prove, nf
from .terms import Term, const, s_add, s_sub, s_mul, s_neg
from .interp import LOOPS, PHIINFO
from .loops import *
from .checks.c06 import head_cost, walk, parts


class Main:
    """A main loop with its cost as a function of the factors at the loop head."""

    def __init__(self, x, k, y, L, since, cost):
        self.L, self.x = L, x
        self.H, self.U, self.closure = None, [], None
        if L.back is None or not L.converged:
            return
        back = back_map(L)
        H = head_cost(L, y['tol'], cost, back)
        if H is None:
            return
        self.closure = HeadClosure(x, since)
        H = self.closure.close(H)
        fa = tm.free_atoms(H)
        self.U = [p for p in L.phis if p in fa and p in back and back[p] is not p]
        self.H = H
        if not self.U or all(p.shape == () for p in self.U):
            self.H = None
        self.attrs = x.I.attr_terms(L.head_state, k.o) or {}
        self.names = {}
        for a, v in self.attrs.items():
            if v in self.U:
                self.names.setdefault(v, a)


def mains(x, k, y, since, fit, at):
    """Main loops of the calls made since, with the searches inside each."""
    out = []
    ml = main_loops(x, y['maxit'], since)
    order = session_loops(x, since)
    for j, L in enumerate(ml):
        cost = x.t(at['cost_']) if fit and j == 0 and 'cost_' in at else None
        out.append((Main(x, k, y, L, since, cost), []))
    for L in order:
        if L.n is None and L.guard is not None:
            i = max((q for q, M in enumerate(ml) if order.index(M) < order.index(L)), default=None)
            if i is not None:
                out[i][1].append(Search(x, k, out[i][0], L))
    return out


class Search:
    def __init__(self, x, k, main, L):
        self.x, self.k, self.main, self.L = x, k, main, L
        self.func = L.func
        self.where = '%s:%s' % (L.file, getattr(L.node, 'lineno', 0))
        self.ok = L.back is not None and L.converged
        self.steps = [p for p in L.phis if p.shape == () and p in free(L.guard)
                      and isinstance(PHIINFO[p][0], Term) and PHIINFO[p][0].op == 'const']
        # a step: its back value is not a function of the new factors alone; choose the constant-entry scalars
        self.s = self.steps[0] if len(self.steps) == 1 else None
        self.sb = PHIINFO[self.s][1] if self.s is not None else None
        self.factors = []
        if main.H is None or not self.ok:
            return
        I = x.I
        e, h, b = (I.attr_terms(st, k.o) or {} for st in (L.entry, L.head_state, L.back))
        self.vals = (e, h, b)
        for p in main.U:
            a = main.names.get(p)
            if a is None or a not in e:
                continue
            if h[a] is not e[a] or b[a] is not e[a]:
                self.factors.append((a, p, e[a], h[a], b[a]))
        moved = {p for a, p, *_ in self.factors}
        self.fixed = {p: e[main.names[p]] for p in main.U if p not in moved and p in main.names and main.names[p] in e}

    def cases(self):
        """Assignments of the exit flags of earlier loops that the fixed factors branch on."""
        fl = []
        for t in list(self.fixed.values()) + [v for f in self.factors for v in f[2:]] + [self.main.H]:
            fl += [c for c in flags(t) if c not in fl]
        fl = [c for c in fl if c is not self.L.brk]
        out = [{}]
        for c in fl[:3]:
            out = [m | {c: v} for m in out for v in (TRUE, FALSE)]
        return out

    def guard_margin(self):
        """A with the meaning: the loop goes on while A < 0."""
        g, neg = self.L.guard, False
        while g.op == 'not':
            g, neg = g.args[0], not neg
        if g.op == 'ge0':
            return g.args[0] if neg else None
        return None


def flags(t):
    out = []
    for a in walk(t):
        if a.op == 'ite':
            for c in ([a.args[0]] if a.args[0].op == 'atom' else []):
                if str(c.args[0]).startswith('brk@') and c not in out:
                    out.append(c)
    return out


def free(t):
    return tm.free_atoms(t) if isinstance(t, Term) else frozenset()


def unproject(t):
    """The array that was projected on the simplex to give t, with the axis; None when t is no projection."""
    if t.op == 'simproj' and len(t.shape) == 1:
        return t.args[0]
    if t.op == 'lam':
        bv, n, ax, body = t.args[:4]
        if body.op == 'simproj' and body.args[0].op == 'index':
            a, ix = body.args[0].args
            pos = [i for i, q in enumerate(ix) if q == ('i', bv)]
            if len(pos) == 1 and bv not in free(a) and all(q[0] == 'a' or q[0] == 'i' and i != pos[0] and bv not in free(q[1])
                                                           for i, q in enumerate(ix) if i != pos[0]):
                rest = tuple(q if i != pos[0] else ('a',) for i, q in enumerate(ix))
                kept = [i for i, q in enumerate(ix) if q[0] == 'a' or i == pos[0]]
                if kept.index(pos[0]) == ax and prove.prove_eq(a.shape[pos[0]], n):
                    return ar.index(a, rest) if any(q[0] == 'i' for q in rest) else a
        return None
    if t.op == 'stack':
        parts = t.args[0]
        us = [unproject(p) for p in parts]
        if all(u is not None for u in us):
            if len(t.shape) == 2 and all(isinstance(u, Term) and len(u.shape) == 1 for u in us):
                return ar.stack(us)                      # rows
            return us
    return None


def orders(k, *terms):
    """The orders of the lags: [(replacements of max/min of lags, facts)]."""
    from itertools import permutations
    if len(k.lags) < 2:
        return [({}, [])]
    mm = {a for t in terms for a in walk(t) if a.op in ('max', 'min')}
    out = []
    for perm in permutations(k.lags):                    # ascending
        facts = [(ar.ge0(s_sub(b, a)), True) for a, b in zip(perm, perm[1:])]
        facts.append((ar.ge0(s_sub(k.sz['n'], s_mul(const(4), perm[-1]))), True))      # a series of at least four lags
        rep = {}
        for m in mm:
            es = list(m.args[0]) if isinstance(m.args[0], (tuple, frozenset)) else list(m.args)
            if all(e in perm for e in es):
                es = sorted(es, key=perm.index)
                rep[m] = es[-1] if m.op == 'max' else es[0]
        out.append((rep, facts))
    return out


def by_orders(k, facts, job, depth=5):
    """Run job(facts) with the normal forms; bounds whose order is not known are taken in both orders."""
    x = k.x
    x.I.sync(x.st)
    base = frozenset(x.st.facts) | frozenset(facts)
    prove.set_ctx(base)
    nf.fresh()
    try:
        return job(base)
    except nf.Order as o:
        if depth == 0:
            raise
        a, b = o.args[0]
        for g, lt in ((ar.ge0(s_sub(a, b)), s_sub(b, a)), (ar.ge0(s_sub(b, a)), s_sub(a, b))):
            prove.set_ctx(base)
            if prove.prove_gt0(lt):
                continue
            by_orders(k, list(facts) + [(g, True)], job, depth - 1)
    finally:
        nf.fresh()
        x.I.sync(x.st)


def transparent(n, scalar_):
    """Are all letters and coefficients of a normal form free of operations it could not open?"""
    ws = [w for k in n for w in k] if scalar_ else list(n)
    for w in ws:
        for l in w:
            if not clear(nf.BYID[l[0]]):
                return False
    return all(clearc(c) for c in n.values())


def clear(t):
    if t.op in ('atom', 'phi', 'onescol', 'shift', 'diag'):
        return True
    if t.op in ('rowsel', 'stride', 'lstsq', 'pinv', 'inv'):                      # as good as a free matrix
        return True
    if t.op == 'index' and t.args[0].op == 'reshape':    # blocks read in another arrangement
        return lincl(t.args[0].args[0])
    if t.op == 'index':
        return clear(t.args[0]) and all(e[0] in ('i', 'a') for e in t.args[1])
    if t.op == 'had':
        return all(clear(nf.BYID[l[0]]) for k in t.args for w, c in k for l in w) and all(clearc(c) for k in t.args for w, c in k)
    if t.op in ('ite', 'ew', 'reshape') and any(a.op == 'ext' and str(a.args[0]).startswith('lp') for a in walk(t)):
        return True                                      # the solution of the linear program
    return unproject(t) is not None


def lincl(t):
    return t.op in ('atom', 'phi', 'lstsq') or t.op == 'index' and lincl(t.args[0])


def clearc(c):
    if c.op == 'const':
        return True
    for m in tm.to_poly(c):
        for f, e in m:
            if not clears(f):
                return False
    return True


def clears(f):
    if f.op in ('atom', 'phi', 'const'):
        return True
    if f.op == 'grp':
        return all(clearc(a) for a in f.args if isinstance(a, Term))
    if f.op in ('max', 'min'):
        return all(clearc(a) for a in walk(f) if a is not f and a.op in ('poly', 'atom'))
    if f.op == 'index':
        return clear(f.args[0]) or f.args[0].op == 'phi'
    if f.op == 'ite':
        return True
    if f.op == 'sqrt':
        return clears(f.args[0])
    if f.op == 'val':
        return all(clear(nf.BYID[l[0]]) for ws, c in f.args[0] for w in ws for l in w) and all(clearc(c) for ws, c in f.args[0])
    return False


def ratio(a, b):
    """r with a = r*b for two normal forms; None when there is none."""
    if not a and not b:
        return const(1)
    if set(a) != set(b) or not b:
        return None
    w = min(b, key=lambda q: (len(tm.to_poly(b[q])), len(str(q))))
    r = tm.s_div(a[w], b[w]) if hasattr(tm, 's_div') else s_mul(a[w], tm.s_pow(b[w], const(-1)))
    for q in b:
        if not prove.prove_eq(a[q], s_mul(r, b[q])):
            return None
    return r


def split(t):
    """The ways of a conditional scalar: [(assumptions, value)], by its topmost ite, min or max."""
    c, todo = None, [t]
    while todo and c is None:
        nxt = []
        for a in todo:
            if isinstance(a, (tuple, frozenset)):
                nxt.extend(a)
            elif isinstance(a, Term):
                if a.op in ('ite', 'min', 'max'):
                    c = a
                    break
                nxt.extend(a.args)
        todo = nxt[:4000]
    if c is None:
        return None
    if c.op == 'ite':
        alts = [([(c.args[0], True)], c.args[1]), ([(c.args[0], False)], c.args[2])]
    else:
        es = list(c.args[0]) if isinstance(c.args[0], (tuple, frozenset)) else list(c.args)
        sg = 1 if c.op == 'max' else -1
        alts = [([(ar.ge0(s_sub(e, o) if sg > 0 else s_sub(o, e)), True) for o in es if o is not e], e) for e in es]
    return [(hs, tm.subst(t, {c: v})) for fs, v in alts for hs in plain(fs)]


def by_cases(t, test, fs=(), depth=5):
    """Does test(facts, value) hold in every way t can come about?  (True, None) or (False, (facts, value))."""
    if test(fs, t):
        return True, None
    alts = split(t) if depth else None
    if alts is None:
        return False, (fs, t)
    for gs, v in alts:
        ok, w = by_cases(v, test, list(fs) + gs, depth - 1)
        if not ok:
            return False, w
    return True, None


def plain(fs):
    """Facts without and/or/not at the top; alternatives of a disjunction become separate lists."""
    out = [[]]
    for c, v in fs:
        while isinstance(c, Term) and c.op == 'not':
            c, v = c.args[0], not v
        if c.op in ('and', 'or'):
            ps = parts(c)
            if (c.op == 'and') == bool(v):
                alts = plain([(p, v) for p in ps])
            else:
                alts = [a for i, p in enumerate(ps) for a in plain([(q, not v) for q in ps[:i]] + [(p, v)])]
        else:
            alts = [[(c, v)]]
        out = [a + b for a in out for b in alts]
    return out


def unbounded(v, fs):
    """A value that depends on costs or slopes and that no assumption of its branch mentions can be anything."""
    free_ = [a for a in walk(v) if a.op in ('sum', 'trace', 'grp')]
    return bool(free_) and not any(a.op in ('ext', 'count') for a in walk(v)) and not any(mentions_(c, v) for c, _ in fs)


def mentions_(c, v):
    """Does condition c compare v with something?"""
    if c.op != 'ge0':
        return False
    p, q = tm.to_poly(c.args[0]), tm.to_poly(v)
    return any(m in p for m in q if m)


def half(v, fs):
    """A quotient of sums that the assumptions bound on one side only."""
    p = tm.to_poly(v)
    sides = set()
    for c, t in fs:
        if c.op == 'ge0':
            for m, k in tm.to_poly(c.args[0]).items():
                if m in p and m:
                    sides.add((k > 0) == bool(t))
    return len(sides) == 1 and any(a.op in ('sum', 'grp') for a in walk(v))
