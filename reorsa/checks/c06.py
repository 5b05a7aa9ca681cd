"""C06: an update that increases the cost raises RuntimeError when that was asked for."""
from itertools import combinations

from ..scen import *
from ..loops import *
from ..report import run

RULES = {
    'raise': 'the cost after all updates of an iteration exceeds the cost at its start: RuntimeError is raised',
    'half': 'the cost after each single update exceeds the cost at the start of the iteration: RuntimeError is raised there',
    'before': 'the check comes before the iteration can be left, recorded as converged or continued',
}


def configs(tier):
    out = []
    for m in (KAA, AA, GPNH, CROM, MTD):
        for i in ('random', 'furthest_sum', 'custom', None):
            out.append(C(m, init=i, K=K2, mono=1, chain='fit_transform'))
        if m is not CROM:                             # a single component leaves nothing to fit in its second stage
            out.append(C(m, init='random', K=1, mono=1, chain='fit_transform'))
        out.append(C(m, init='random', K='none', mono=1, chain='fit'))
        out.append(C(m, init='random', K=K2, mono=1, chain='fit>transform'))
        if tier == 'thorough':
            out.append(C(m, init='random', K=K2, mono=1, mem=2, chain='fit'))
            out.append(C(m, init='custom', K=K2, mono=1, chain='fit>transform>fit'))
    out.append(C(KAA, init='random', K=K2, mono=1, delta=1, chain='fit'))
    out.append(C(AA, init='random', K=K2, mono=1, delta=1, kernel_func=1, chain='fit'))
    for l in (1, 2) + ((3,) if tier == 'thorough' else ()):
        out.append(C(MTD, init='random', K=K2, mono=1, lags=l, chain='fit_transform'))
    for tv in (0, 1):
        out.append(C(FKM, K=K2, tv=tv, mono=1, chain='fit_transform'))
        for u, mem in ((0, 1), (1, 0), (1, (1, 2))):
            out.append(C(FVX, K=2, tv=tv, u=u, memory=mem, mono=1, chain='fit_transform'))
    return out


def unabs(t):
    """Remove absolute values whose sign is known."""
    for a in tm.subterms(t) if hasattr(tm, 'subterms') else walk(t):
        if a.op == 'abs':
            P = a.args[0]
            if prove.prove_ge0(P):
                return unabs(tm.subst(t, {a: P}))
            if prove.prove_ge0(s_neg(P)):
                return unabs(tm.subst(t, {a: s_neg(P)}))
    return t


def walk(t):
    seen, todo = set(), [t]
    while todo:
        a = todo.pop()
        if isinstance(a, (tuple, frozenset)):
            todo.extend(a)
        elif isinstance(a, Term) and a not in seen:
            seen.add(a)
            todo.extend(a.args)
    return seen


def parts(c):
    q = c.args[0]
    return list(q) if isinstance(q, (tuple, frozenset)) else list(c.args)


def holds(c):
    """Truth of a condition in the current context."""
    if c.op == 'const':
        return bool(tm.cval(c))
    if c.op == 'not':
        r = holds(c.args[0])
        return None if r is None else not r
    if c.op in ('and', 'or'):
        rs = [holds(p) for p in parts(c)]
        if c.op == 'and':
            return False if False in rs else (True if all(r is True for r in rs) else None)
        return True if True in rs else (False if all(r is False for r in rs) else None)
    if c.op == 'ge0':
        a = c.args[0]
        b = a if not any(q.op == 'abs' for q in walk(a)) else unabs(a)
        if prove.prove_ge0(b):
            return True
        if prove.prove_gt0(s_neg(b)):
            return False
        return None
    if c.op == 'eq0':
        if prove.prove_eq(c.args[0], const(0)):
            return True
        if prove.prove_gt0(c.args[0]) or prove.prove_gt0(s_neg(c.args[0])):
            return False
    if c.op == 'ite':
        r = holds(c.args[0])
        if r is not None:
            return holds(c.args[1] if r else c.args[2])
    return None


def understood(c):
    if c.op in ('and', 'or'):
        return all(understood(p) for p in parts(c))
    if c.op == 'not':
        return understood(c.args[0])
    return c.op in ('ge0', 'eq0', 'const')


def implied(base, facts, conds, depth=5):
    """Do the facts make all the conditions true, whichever way the loops inside were left?"""
    prove.set_ctx(frozenset(base) | frozenset(facts))
    if all(holds(c) is v for c, v in conds):
        return True
    if depth == 0:
        return False
    flags = []
    for c, v in list(conds) + list(facts):
        flags += [g for g in conditions(c) if str(g.args[0]).startswith('brk@') and g not in flags]
    if not flags:
        return False
    for v in (TRUE, FALSE):
        mp = {flags[0]: v}
        if not implied(base, [(tm.subst(c, mp), w) for c, w in facts], [(tm.subst(c, mp), w) for c, w in conds], depth - 1):
            return False
    return True


def head_cost(L, tol, cost, back):
    """The cost at the start of an iteration (up to terms the updates do not touch)."""
    if cost is not None:
        return cof(cost, L.brk, False)
    sts = [L.back] if L.back is not None else []
    for s_ in sts:
        for D, sense in cost_change([fv for fv in s_.facts if fv not in L.entry.facts], tol):
            for sg in (1, -1):
                p = tm.to_poly(D if sg == 1 else s_neg(D))
                h = {m: -c for m, c in p.items() if tm.subst(tm.from_poly({m: c}), back) is not tm.from_poly({m: c})
                     and all(p.get(q) == -cq for q, cq in tm.to_poly(tm.subst(tm.from_poly({m: c}), back)).items())}
                if h:
                    H = tm.from_poly(h)
                    if prove.prove_eq(s_sub(tm.subst(H, back), H), D if sg == 1 else s_neg(D)):
                        return H
    return None


def analyse(conf, col):
    k = Ctx(conf)
    x, y = k.x, k.y
    model = conf['model'].rsplit('.', 1)[1]
    fem = conf['model'] in (FKM, FVX)
    for i, name in enumerate(conf['chain'].split('>')):
        m = x.mark()
        since = set(LOOPS)
        r = step(k, name, i, i == 0)
        if x.dead:
            col.unk('raise', '%s.%s' % (model, name), 'no path returns (see C22)')
            return
        evs = x.new_events(m)
        at = x.attrs(k.o)
        fit = name in ('fit', 'fit_transform')
        for j, L in enumerate(main_loops(x, y['maxit'], since)):
            f = '%s (%s)' % (L.func, name)
            where = '%s:%s' % (L.file, getattr(L.node, 'lineno', 0))
            if L.back is None or not L.converged:
                col.unk('raise', f, 'no summary of the loop', where)
                continue
            back = back_map(L)
            cost = x.t(at['cost_']) if fit and j == 0 and 'cost_' in at else None
            H = head_cost(L, y['tol'], cost, back)
            if H is None:
                col.unk('raise', f, 'the cost at the start of an iteration was not recognised', where)
                continue
            cl = HeadClosure(x, since)
            H = cl.close(H)
            back = {p: cl.close(v) for p, v in back.items()}
            fa = tm.free_atoms(H)
            U = [p for p in L.phis if p in fa and p in back and back[p] is not p]
            if not U:
                col.unk('raise', f, 'no factor of the cost is updated: %s' % tm.show(H)[:160], where)
                continue
            if all(p.shape == () for p in U):
                stale = [p for p in U if any(a in back and a.shape for a in tm.free_atoms(back[p]))]
                if stale:
                    col.bad('raise', f, 'the cost that is compared is evaluated before the update of %s' % ', '.join(sorted(
                        {nm(a) for p in stale for a in tm.free_atoms(back[p]) if a in back and a.shape})), where)
                else:
                    col.unk('raise', f, 'the cost is not a function of the factors: %s' % tm.show(H)[:160], where)
                continue
            checks(col, x, k, L, H, U, back, evs, f, where, fem, y, cl)
    col.functions |= x.I.seen_functions


def checks(col, x, k, L, H, U, back, evs, f, where, fem, y, cl):
    raises = []
    for e in evs:
        if e.kind != 'raise' or e.data.get('intry'):
            continue
        pcs = list(e.pc)
        at_ = [q for q, (c, v) in enumerate(pcs) if c is L.brk and v == 'iter']
        if at_:
            raises.append((e, [(cl.close(c), v) for c, v in pcs[at_[-1] + 1:]]))
    rt = [(e, p) for e, p in raises if str(e.data.get('exc')).rsplit('.', 1)[-1] == 'RuntimeError']
    covered, opaque, seen_conds = {}, [], []
    subs = [frozenset(c) for r in range(1, len(U) + 1) for c in combinations(U, r)]
    base = tuple(L.head_state.facts) if L.head_state is not None else ()
    vals = {s_: tm.subst(H, {p: back[p] for p in s_}) for s_ in subs}
    for e, conj in rt:
        own = [(c, v) for c, v in conj if not any(c is c2 and v != v2 for c2, v2 in seen_conds)]
        hit = False
        for s_ in subs:
            if s_ in covered:
                continue
            D = s_sub(vals[s_], H)
            facts = [(ar.ge0(s_neg(D)), False)]
            if fem:
                facts += [(ar.ge0(s_sub(y['tol'], D)), False), (ar.ge0(s_sub(L.k, const(1))), True)]
            x.I.sync(x.st)
            if all(v in (True, False) for c, v in own) and implied(base, facts, own):
                covered[s_] = e
                hit = True
                break
        if not hit:
            opaque.append((e, own))
        if conj:
            seen_conds.append(conj[-1])
    x.I.sync(x.st)
    full = frozenset(U)
    unclear = [(e, own) for e, own in opaque if not all(understood(c) for c, v in own if isinstance(c, Term))]
    what = 'n_iter > 0 and increase > tolerance' if fem else 'increase > 0'
    if full in covered:
        col.ok('raise', f, 'RuntimeError in %s whenever %s after all updates' % (covered[full].func, what), covered[full].where())
    elif unclear:
        col.unk('raise', f, 'condition not understood: %s' % [tm.show(c)[:100] for c, v in unclear[0][1]], where)
    else:
        col.bad('raise', f, 'no RuntimeError is certain when the cost after all updates exceeds the cost at the start of the '
                            'iteration (%d such statements in the loop)' % len(rt), opaque[0][0].where() if opaque else where)
    # every half-step: a chain of checked subsets in which the weights never come together with another factor
    W = [p for p in U if is_weights(x, k, p)]
    chain = sorted(covered, key=len)
    prev, gaps = frozenset(), []
    for s_ in chain + ([full] if full not in covered else []):
        if not prev < s_:
            continue
        step_ = s_ - prev
        if len(step_) > 1 and (any(p in step_ for p in W) or not all(markov(x, k, p) or fem for p in step_)):
            gaps.append(step_)
        prev = s_
    if not gaps:
        col.ok('half', f, 'checked after each of %d updates' % len(chain), where)
    elif unclear:
        col.unk('half', f, 'condition not understood', where)
    else:
        col.bad('half', f, 'no check of the cost between the updates of %s' % ', '.join(sorted(nm(p) for p in gaps[0])), where)
    # the check precedes every way out
    for rest, facts, st in () if fem else L.breaks:
        ok = full in covered and on_path(covered[full], L, rest, [(cl.close(c), v) for c, v in facts], vals[full], H, x, fem, y, base)
        col.decide(True if ok else None, 'before', f, 'an early stop comes after the check', where)


def on_path(e, L, rest, facts, V, H, x, fem, y, base):
    r = implied(base, facts, [(ar.ge0(s_sub(H, V)), True)])
    x.I.sync(x.st)
    return r


def nm(p):
    return tm.show(p).replace('phi<', '').rstrip('>').split('.')[-1]


def shape_of(x, p):
    return p.shape


def is_weights(x, k, p):
    n, K = k.sz['n'], k.K
    sh = p.shape
    if sh is None or len(sh) != 2:
        return False
    return not markov(x, k, p) and prove.prove_eq(sh[1], K) and not prove.prove_eq(sh[0], K)


def markov(x, k, p):
    return k.model in (MTD, CROM) and p.shape is not None and len(p.shape) != 2


def main(tier):
    return run('C06', analyse, configs(tier), RULES,
               'Loop summaries: the cost at the loop head is a function of the factors; with the factor values of the back '
               'edge substituted for all factors, or for a prefix of the updates, the assumption that this value exceeds the '
               'cost at the head must make the path condition of a raised RuntimeError true.', tier, need=('raise', 'half'))
