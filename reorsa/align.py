"""Are two values of two separate runs equal?  Optimistic matching of term graphs.

Values of loops are assumed to correspond, and the assumption is discharged by matching their entry and back-edge values,
the trip counts, the guards and the ways the loops are left (coinduction: the usual argument for value numbering of cyclic
graphs).  A clash anywhere makes the answer 'not shown'."""
import re
from . import terms as tm
from .terms import Term
from .interp import LOOPS, PHIINFO

FRESH = re.compile(r'^q\d+:(var|empty|first|g)\d+$')


class Mono:
    """A monomial of a polynomial with its coefficient."""

    def __init__(self, m, c):
        self.m, self.c = m, c


class Align:
    def __init__(self, rename=None, limit=400000):
        self.assumed = {}            # phi or exit flag of run 1 -> of run 2
        self.back = {}
        self.loops = {}
        self.proved = set()
        self.clash = None
        self.steps, self.limit = 0, limit
        self.brk = {L.brk: L for L in LOOPS.values() if isinstance(L.brk, Term)}
        self.ks = {L.k: L for L in LOOPS.values() if isinstance(L.k, Term)}
        self.todo = []
        self.trail = []
        self.seen = set()

    def roots(self, a, b, path='the value'):
        """Match a with b and everything the loops behind them contribute; the pairs that do not match."""
        bad = []
        self.todo.append((a, b, path))
        seen = self.seen
        while self.todo:
            p, q, why = self.todo.pop()
            if (id(p), id(q)) in seen:
                continue
            seen.add((id(p), id(q)))
            self.clash, self.trail = None, []
            if not self.match(p, q):
                bad.append((p, q, why, self.clash, [x.op for x, y in self.trail]))
        return bad

    def fail(self, a, b):
        if self.clash is None:
            self.clash = (a, b)
        return False

    def pair_loops(self, L, M):
        if self.loops.get(L.head, M.head) != M.head:
            return False
        if L.head not in self.loops:
            self.loops[L.head] = M.head
            self.assumed[L.k], self.assumed[L.brk] = M.k, M.brk
            w = 'loop in %s: ' % getattr(L.func, 'name', L.func)
            self.todo += [(L.n, M.n, w + 'number of iterations'), (L.guard, M.guard, w + 'condition')]
            if len(L.breaks) != len(M.breaks):
                return False
            for x, y in zip(L.breaks, M.breaks):
                if len(x[0]) != len(y[0]):
                    return False
                for (c, v), (d, u) in zip(x[0], y[0]):
                    if v != u:
                        return False
                    self.todo.append((c, d, w + 'a way out'))
        return True

    def match(self, a, b):
        self.steps += 1
        if self.steps > self.limit:
            return self.fail(a, b)
        if a is b:
            return True
        if isinstance(a, Mono) and isinstance(b, Mono):
            return a.c == b.c and self.bag(list(a.m), list(b.m)) or self.fail(a.m, b.m)
        if isinstance(a, str) and isinstance(b, str) and a != b:
            u, v = FRESH.match(a), FRESH.match(b)
            if u and v and u.group(1) == v.group(1) and self.assumed.get(a, b) == b and self.back.get(b, a) == a:
                self.assumed[a], self.back[b] = b, a        # bound by the problem, or content that is never read
                return True
            return self.fail(a, b)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return len(a) == len(b) and all(self.match(p, q) for p, q in zip(a, b))
        if not isinstance(a, Term) or not isinstance(b, Term):
            if isinstance(a, frozenset) and isinstance(b, frozenset):
                return len(a) == len(b) and self.bag(list(a), list(b))
            return a == b or self.fail(a, b)
        if (a, b) in self.proved:
            return True
        if a.op == 'phi' or a in self.brk or a in self.ks:
            if a in self.assumed:
                return self.assumed[a] is b or self.fail(a, b)
            if self.back.get(b, a) is not a:
                return self.fail(a, b)
            if a in self.brk or a in self.ks:
                D = self.brk if a in self.brk else self.ks
                if b not in D or not self.pair_loops(D[a], D[b]):
                    return self.fail(a, b)
                return True
            if b.op != 'phi' or a not in PHIINFO or b not in PHIINFO:
                return self.fail(a, b)
            self.assumed[a], self.back[b] = b, a
            ea, eb = PHIINFO[a], PHIINFO[b]
            if not self.pair_loops(LOOPS[ea[2]], LOOPS[eb[2]]):
                return self.fail(a, b)
            n = tm.show(a)[:60]
            self.todo += [(ea[0], eb[0], 'entry value of ' + n), (ea[1], eb[1], 'next value of ' + n)]
            return True
        if a.op != b.op:
            return self.fail(a, b)
        if a.op == 'atom':
            m, n = str(a.args[0]), str(b.args[0])
            if FRESH.match(m) and FRESH.match(n):
                return self.match(m, n)
            if m.startswith('first@') and n.startswith('first@') and m[6:] in LOOPS and n[6:] in LOOPS and \
                    self.pair_loops(LOOPS[m[6:]], LOOPS[n[6:]]):
                return True
            return self.fail(a, b)
        ok = self.args(a, b)
        if ok:
            self.proved.add((a, b))
        elif len(self.trail) < 60:
            self.trail.append((a, b))
        return ok or self.fail(a, b)

    def args(self, a, b):
        if a.op == 'poly':
            return self.bag([Mono(m, c) for m, c in a.args[0]], [Mono(m, c) for m, c in b.args[0]])
        if a.op in ('lin', 'and', 'or', 'max', 'min'):
            x = list(a.args[0]) if len(a.args) == 1 else list(a.args)
            y = list(b.args[0]) if len(b.args) == 1 else list(b.args)
            return self.bag(x, y)
        if a.op in ('smul', 'same'):
            return self.bag(list(a.args), list(b.args))
        if a.op in ('ew', 'ext') and a.args[0] in ('fmax', 'fmin', 'eq', 'ne', 'and', 'or', 'mul') and a.args[0] == b.args[0]:
            x, y = (list(q.args[1:]) if len(q.args) != 2 or isinstance(q.args[1], Term) else list(q.args[1]) for q in (a, b))
            return self.bag(x, y)
        return self.match(a.args, b.args)

    def bag(self, x, y):
        """Match two collections up to order, by shape first."""
        if len(x) != len(y):
            return self.fail(tuple(x), tuple(y))
        if all(p is q for p, q in zip(x, y)):
            return True
        y = list(y)
        for p in x:
            hp = sketch(p)
            cands = [q for q in y if sketch(q) == hp]
            if not cands:
                return self.fail(p, tuple(y))
            done = False
            for q in cands:
                if self.tentative(p, q):
                    y.remove(q)
                    done = True
                    break
            if not done:
                return self.fail(p, tuple(cands))
        return True

    def tentative(self, p, q):
        save = (dict(self.assumed), dict(self.back), dict(self.loops), set(self.proved), list(self.todo))
        if self.match(p, q):
            return True
        self.assumed, self.back, self.loops, self.proved, self.todo = save
        return False


_SK = {}


def sketch(t, depth=3):
    """Hash of the upper part of a term, without names of loop values."""
    if isinstance(t, (tuple, list)):
        return tuple(sketch(q, depth) for q in t)
    if isinstance(t, frozenset):
        return frozenset(sketch(q, depth) for q in t)
    if isinstance(t, Mono):
        return (t.c, frozenset(repr(sketch(q, depth)) for q in t.m))
    if isinstance(t, str):
        return 'fresh' if FRESH.match(t) else t
    if not isinstance(t, Term):
        return t
    k = (t, depth)
    if k in _SK:
        return _SK[k]
    if t.op == 'phi' or t.op == 'const' and isinstance(t.args[1], str) and FRESH.match(t.args[1]):
        r = 'phi'
    elif t.op == 'atom':
        r = t.args[0] if not str(t.args[0]).startswith('q') and '@' not in str(t.args[0]) else 'local'
    elif depth == 0:
        r = t.op
    elif t.op == 'poly':
        r = (t.op, frozenset((c, frozenset((repr(sketch(f, depth - 1)), e) for f, e in m)) for m, c in t.args[0]))
    elif t.op in ('smul', 'same') or t.op in ('ew', 'ext') and t.args[0] in ('fmax', 'fmin', 'eq', 'ne', 'and', 'or', 'mul'):
        r = (t.op, frozenset(repr(sketch(q, depth - 1)) for q in tm.children(t)))
    elif t.op in ('lin', 'and', 'or', 'max', 'min'):
        r = (t.op, frozenset(repr(sketch(q, depth - 1)) for q in (t.args[0] if len(t.args) == 1 else t.args)))
    else:
        r = (t.op, sketch(t.args, depth - 1))
    _SK[k] = r
    return r
