"""Queries on the loop summaries of a session."""
from . import terms as tm
from . import arrays as ar
from . import prove
from .terms import Term, const, s_add, s_sub, s_neg
from .interp import LOOPS, PHIINFO

TRUE, FALSE = const(True), const(False)


def session_loops(x, since=()):
    """Loops of session x, in order, except those whose heads are in since."""
    pre = x.I.run + ':'
    return [L for h, L in LOOPS.items() if h.startswith(pre) and h not in since]


def mentions(t, a):
    return isinstance(t, Term) and a in tm.free_atoms(t)


def main_loops(x, maxit, since=()):
    return [L for L in session_loops(x, since) if mentions(L.n, maxit) or mentions(L.guard, maxit)]


def cof(t, brk, val):
    return tm.subst(t, {brk: const(val)}) if isinstance(t, Term) else t


def atoms_within(t, allowed):
    return all(a in allowed for a in tm.free_atoms(t))


def cost_change(facts, tol):
    """(D, sense) for facts that compare |D| with tol: sense True for |D| < tol, False for |D| >= tol."""
    out = []
    lo = {}
    for f, v in facts:
        neg = not v
        while f.op == 'not':
            f, neg = f.args[0], not neg
        if f.op == 'and' and not neg or f.op == 'or' and neg:
            out += cost_change([(g, not neg) for g in f.args[0]] if isinstance(f.args[0], (tuple, frozenset)) else
                               [(g, not neg) for g in f.args], tol)
            continue
        if f.op != 'ge0' or not mentions(f.args[0], tol):
            continue
        a = f.args[0]
        if neg:                                   # a < 0
            d = s_add(a, tol)                     # |D| - tol < 0
            if d.op == 'abs' or d.op == 'poly' and False:
                out.append((d.args[0], True))
            elif not mentions(d, tol):
                lo.setdefault('lt', []).append(d)
        else:                                     # a >= 0
            d = s_add(a, tol)
            if d.op == 'abs':
                out.append((d.args[0], False))
            d2 = s_sub(tol, a)
    lt = lo.get('lt', [])
    for d in lt:                                  # D < tol and -D < tol
        if any(prove.prove_eq(s_neg(d), e) for e in lt):
            out.append((d, True))
    return out


def back_map(L):
    """phi -> value on the back edge, for the phis of loop L."""
    return {p: PHIINFO[p][1] for p in L.phis if isinstance(PHIINFO[p][1], Term)}


def telescopes(D, back):
    """Is D = F(back) - F(phi) (or its negative) for some F?  Monomials are matched in pairs."""
    p = tm.to_poly(D)
    mons = dict(p)
    if not mons:
        return None
    for sgn in (1, -1):
        left = dict(mons)
        ok = True
        heads = []
        for m, c in list(left.items()):
            t = tm.from_poly({m: c})
            b = tm.subst(t, back)
            if b is t:
                continue
            pb = tm.to_poly(s_neg(b))
            if all(left.get(q) == cq for q, cq in pb.items()):
                heads.append((m, pb))
        # choose the pairs greedily; a monomial is used once
        used = set()
        for m, pb in heads:
            if m in used or any(q in used for q in pb):
                continue
            used.add(m)
            used |= set(pb)
        if used == set(left):
            return True
        if sgn == 1:
            continue
    return None


def is_cost_change(D, L, cost=None):
    """Does D compare the cost at the end of an iteration of L with the cost at its start?  None when not known."""
    if cost is not None:
        e, h = cof(cost, L.brk, True), cof(cost, L.brk, False)
        if prove.prove_eq(D, s_sub(e, h)) or prove.prove_eq(D, s_sub(h, e)):
            return True
    return telescopes(D, back_map(L))


class HeadClosure:
    """Loop values that repeat a computation, expressed by the values they are computed from.

    A value p of loop L whose entry value is the result of a call (its return value, or an attribute it sets) is
    conjectured to be the result F of that call at the head of L.  p = F holds by induction when F gives p's value at
    the entry and, with the values of the back edge, on the back edge."""

    def __init__(self, x, since=()):
        self.x = x
        self.loop = {p: L for L in session_loops(x, since) for p in L.phis}
        self.memo = {}

    def phi(self, p):
        if p in self.memo:
            return self.memo[p]
        self.memo[p] = None                             # while it is being worked out, p stands for itself
        r = self.memo[p] = self._phi(p)
        return r

    def _phi(self, p):
        from .interp import DeadPath
        x, L = self.x, self.loop[p]
        E, B = PHIINFO[p][0], PHIINFO[p][1]
        if not isinstance(E, Term) or not isinstance(B, Term) or L.head_state is None:
            return None
        for pv in (x.I.prov.get(E), x.I.prov.get(B)):
            if pv is None:
                continue
            st = L.head_state.copy()
            st.dead = False
            n0 = len(x.I.events)
            try:
                F = x.t_in(st, x.I.call_func(st, pv[0], list(pv[1]), dict(pv[2]), None))
                if pv[3] is not None:
                    F = (x.I.attr_terms(st, pv[1][0]) or {}).get(pv[3])
            except DeadPath:
                continue
            finally:
                del x.I.events[n0:]
            if not isinstance(F, Term) or p in tm.free_atoms(F):
                continue
            F = self.close(F)
            if p in tm.free_atoms(F):
                continue
            ent = {q: PHIINFO[q][0] for q in L.phis if isinstance(PHIINFO[q][0], Term)}
            if same(self.close(tm.subst(F, ent)), self.close(E)) and \
                    same(self.close(tm.subst(F, back_map(L))), self.close(B)):
                return F
        return None

    def close(self, t, depth=5):
        for _ in range(depth):
            mp = {}
            for p in tm.free_atoms(t):
                if p in self.loop:
                    F = self.phi(p)
                    if F is not None:
                        mp[p] = F
            if not mp:
                return t
            t = tm.subst(t, mp)
        return t


def conditions(t, limit=2000):
    """Exit flags that t branches on near its top."""
    out, todo, n = [], [t], 0
    while todo and n < limit:
        a = todo.pop()
        n += 1
        if isinstance(a, (tuple, frozenset)):
            todo.extend(a)
        elif isinstance(a, Term):
            if a.op == 'ite' and a.args[0].op == 'atom' and a.args[0] not in out:
                out.append(a.args[0])
            todo.extend(a.args)
    return out


def same(a, b, depth=4):
    """Are a and b equal, by cases over the ways a loop was left?"""
    if prove.prove_eq(a, b):
        return True
    if depth == 0:
        return False
    top = [q.args[0] for q in (a, b) if q.op == 'ite' and q.args[0].op == 'atom']
    ca, cb = conditions(a), conditions(b)
    fl = top or [c for c in cb if c not in ca] or [c for c in ca if c not in cb] or ca or cb
    if not fl:
        return False
    return all(same(tm.subst(a, {fl[0]: v}), tm.subst(b, {fl[0]: v}), depth - 1) for v in (TRUE, FALSE))
