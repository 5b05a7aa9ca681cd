"""Dependency closure of values: through operators, loop values, loop exits and path conditions."""
from . import prove
from . import terms as tm
from .terms import Term, const, s_sub
from .interp import LOOPS, PHIINFO
from .values import *

_HEADS = {}


def _loop_of(a):
    """Loop whose counter or exit atom a is."""
    n = str(a.args[0])
    if n.startswith(('k@', 'brk@', 'first@')):
        return LOOPS.get(n.split('@', 1)[1])
    return None


class Closure:
    """Everything that the given terms are computed from."""

    def __init__(self, terms=(), control=True, stop=None):
        self.seen = set()
        self.via = {}
        self.control = control
        self.stop = stop
        self.loops = set()
        for t in terms:
            self.add(t)

    def add(self, t, via=None):
        st = [(t, via)]
        while st:
            u, v = st.pop()
            if not isinstance(u, Term) or u in self.seen:
                continue
            self.seen.add(u)
            self.via[u] = v
            if self.stop is not None and self.stop(u):
                continue
            for c in tm.children(u):
                st.append((c, u))
            if u.shape:
                for c in u.shape:
                    st.append((c, u))
            info = PHIINFO.get(u)
            if info is not None:
                L = LOOPS.get(info[2])
                for w in (info[1:2] if L is not None and overwritten(u, L) else info[:2]):
                    st += [(y, u) for y in value_terms(w)]
                if L is not None and self.control:
                    st += [(y, u) for y in self.loop(L)]
            elif u.op == 'atom' and self.control:
                L = _loop_of(u)
                if L is not None:
                    st += [(y, u) for y in self.loop(L)]
        return self

    def loop(self, L):
        if L.head in self.loops:
            return []
        self.loops.add(L.head)
        out = []
        for g in (L.n, L.guard):
            if isinstance(g, Term):
                out.append(g)
        base = L.entry.facts
        for rest, facts, st in L.breaks:
            out += [c for c, v in rest if isinstance(c, Term)]
            out += [c for c, v in facts if (c, v) not in base and isinstance(c, Term) and
                    L.back is not None and ((c, not v) in L.back.facts or (c, v) not in L.back.facts)]
        return out

    def __contains__(self, t):
        return t in self.seen

    def find(self, pred):
        return [u for u in self.seen if pred(u)]

    def trace(self, t, n=6):
        out = []
        while t is not None and len(out) < n:
            out.append(tm.show(t, 3)[:70])
            t = self.via.get(t)
        return ' <- '.join(out)


_OVER = {}


def overwritten(p, L):
    """Is the value that loop variable p has before loop L never read: L makes an iteration, and each one replaces p
    before anything is computed from it and before it can leave the loop?"""
    r = _OVER.get(p)
    if r is None:
        _OVER[p] = False                                  # while it is being decided
        r = _OVER[p] = _overwritten(p, L)
    return r


def reachable(st):
    """Terms of everything that variables lead to."""
    seen = set()
    out = []
    for loc, c in st.heap.items():
        if isinstance(c, Frame) and not (isinstance(loc, tuple) and loc and loc[0] in ('mod', 'lp')):
            for v in c.vars.values():
                if isinstance(v, (Ref, Tup, Alt, MaybeU, Term)):
                    out += cell_terms(st, v, seen)
    return out


def _overwritten(p, L):
    back = PHIINFO[p][1]
    if not isinstance(L.n, Term) or not L.converged or isinstance(L.guard, Term) and L.guard.op != 'const' or \
            any(p in tm.subterms(t) for t in value_terms(back)):
        return False
    if L.entry is None:
        return False
    prove.set_ctx(L.entry.facts)
    if not prove.prove_ge0(s_sub(L.n, const(1))):
        return False
    ts = [t for q in L.phis for t in value_terms(PHIINFO[q][1])] if all(q in PHIINFO for q in L.phis) else None
    if ts is None:
        return False
    for rest, facts, st in L.breaks:
        ts += [c for c, v in rest if isinstance(c, Term)]
        ts += [c for c, v in facts if isinstance(c, Term) and (c, v) not in L.entry.facts]
        ts += reachable(st)
    if isinstance(L.back, State):
        ts += [t for t in reachable(L.back) if t is not p]
    return p not in Closure(ts, stop=lambda u: u is p)


def value_terms(v):
    """Terms in an abstract value (no heap)."""
    if isinstance(v, Term):
        return [v]
    if isinstance(v, Tup):
        return [t for x in v.items for t in value_terms(x)]
    if isinstance(v, Alt):
        return value_terms(v.cond) + value_terms(v.a) + value_terms(v.b)
    if isinstance(v, MaybeU):
        out = value_terms(v.v)
        for g in v.und:
            if g is not None:
                out += [c for c, _ in g if isinstance(c, Term)]
        return out
    return []


def cell_terms(st, v, seen=None, skip=()):
    """Terms reachable from value v in the heap of state st: contents of arrays, attributes, items."""
    seen = set() if seen is None else seen
    out = []
    work = [v]
    while work:
        w = work.pop()
        if isinstance(w, Ref):
            if (w.loc, w.path) in seen:
                continue
            seen.add((w.loc, w.path))
            c = st.heap.get(w.loc)
            if isinstance(c, Arr):
                out.append(c.term)
                for p in _path_terms(w.path):
                    out.append(p)
            elif isinstance(c, Lst):
                if c.items is not None:
                    work += list(c.items)
                if c.sym is not None:
                    out.append(c.sym)
            elif isinstance(c, Dct):
                work += list(c.items.values())
            elif isinstance(c, Obj):
                work += [a for k, a in c.attrs.items() if k not in skip]
            elif isinstance(c, XObj):
                if isinstance(c.term, Term):
                    out.append(c.term)
                work += [a for k, a in c.attrs.items() if k not in skip]
            elif isinstance(c, Rng):
                out.append(c.term)
        elif isinstance(w, Tup):
            work += list(w.items)
        elif isinstance(w, Alt):
            out += value_terms(w.cond)
            work += [w.a, w.b]
        elif isinstance(w, MaybeU):
            work.append(w.v)
            for g in w.und:
                if g is not None:
                    out += [c for c, _ in g if isinstance(c, Term)]
        elif isinstance(w, Term):
            out.append(w)
    return out


def _path_terms(p):
    out = []
    for x in p or ():
        if isinstance(x, Term):
            out.append(x)
        elif isinstance(x, tuple):
            out += _path_terms(x)
    return out


def pc_terms(e):
    return [c for c, v in e.pc if isinstance(c, Term)]
