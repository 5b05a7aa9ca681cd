"""C17: iteration limits, stopping rule, iteration counts and non-convergence warnings."""
from ..scen import *
from ..loops import *
from ..report import run

RULES = {
    'limit': 'the main loop performs at most, and without convergence exactly, max_iterations iterations',
    'stop': 'the main loop is left early only when the change of the cost is below the tolerance',
    'continue': 'the main loop goes on only when the change of the cost is not below the tolerance',
    'count': 'n_iter_ is the number of iterations performed',
    'warn': 'a fit that uses up its iterations without meeting a positive tolerance warns',
    'quiet': 'a converged fit does not warn about its iterations',
}


def chainsof(m):
    if m in (FKM, FVX, PWV, KMC):
        return [('fit_transform',), ('fit',)]
    return [('fit_transform', 'transform'), ('fit', 'predict')] if m in (CROM, MTD) else [('fit_transform', 'transform'), ('fit',)]


def configs(tier):
    out = []
    base = [C(m, init=i, K=K2) for m in (KAA, AA, GPNH, CROM, MTD) for i in ('random', 'furthest_sum', 'custom')]
    base += [C(m, init='random', K=K2, mono=0) for m in (KAA, AA, GPNH, CROM, MTD)]
    base += [C(KAA, init='random', K=K2, delta=1), C(AA, init='random', K=K2, delta=1), C(AA, init='random', K=K2, kernel_func=1),
             C(MTD, init='random', K=K2, lags=2), C(CROM, init='random', K=K2, lags=2)]
    base += [C(FKM, K=K2, tv=0), C(FKM, K=K2, tv=1), C(FKM, K=K2, tv=1, mono=0), C(FVX, K=2, tv=1, u=0, memory=1),
             C(FVX, K=2, tv=0, u=1, memory=(0, 1)), C(FVX, K=2, tv=0, u=0, memory=1, mono=0)]
    if tier == 'thorough':
        base = factorisations(tier) + fembvs(tier)
    for c in base:
        for ch in chainsof(c['model']):
            c2 = Conf(c)
            c2['chain'] = '>'.join(ch)
            out.append(c2)
    return out


def neat(t, L):
    return show_t(t).replace('k@' + L.head, 'counter').replace('brk@' + L.head, 'converged')


def show_t(t):
    return tm.show(t)[:200] if isinstance(t, Term) else str(t)


def compare(facts, y, L, col):
    return cost_change(facts, y['tol'])


def analyse(conf, col):
    k = Ctx(conf)
    x, y = k.x, k.y
    model = conf['model'].rsplit('.', 1)[1]
    maxit, tol = y['maxit'], y['tol']
    seen = set(LOOPS)
    for i, name in enumerate(conf['chain'].split('>')):
        m = x.mark()
        since = set(LOOPS)
        step(k, name, i, i == 0)
        evs = x.new_events(m)
        if x.dead:
            col.unk('limit', '%s.%s' % (model, name), 'no path returns (see C22)')
            return
        Ls = main_loops(x, maxit, since)
        if not Ls:
            nl = [L for L in session_loops(x, since) if L.n is None and L.guard is None]
            col.unk('limit', '%s.%s' % (model, name), 'no loop limited by max_iterations found (%d others)' % len(nl))
            continue
        fit = name in ('fit', 'fit_transform')
        at = x.attrs(k.o)
        cost = x.t(at['cost_']) if fit and 'cost_' in at else None
        for j, L in enumerate(Ls):
            where = '%s:%s' % (L.file, getattr(L.node, 'lineno', 0))
            f = '%s (%s)' % (L.func, name)
            n = L.n
            if n is None or not L.converged:
                col.unk('limit', f, 'iteration count not in closed form', where)
                continue
            if prove.prove_eq(n, maxit):
                col.ok('limit', f, 'the loop counts max_iterations rounds', where)
            else:
                col.decide(False if atoms_within(n, {maxit}) else None, 'limit', f,
                           'the loop is limited to %s rounds' % show_t(n), where)
            # early exits
            for rest, facts, st in L.breaks:
                new = [fv for fv in facts if fv not in L.entry.facts] + [r for r in rest if isinstance(r[1], bool)]
                cs = cost_change(new, tol)
                hit = [D for D, s_ in cs if s_ and is_cost_change(D, L, cost if j == 0 else None)]
                if hit:
                    col.ok('stop', f, 'left when |cost change| < tolerance', where)
                    continue
                # a violation is certain when nothing relates the cost to the tolerance on this path
                tolf = [fv for fv in new if mentions(fv[0], tol)]
                if not tolf:
                    col.bad('stop', f, 'left without comparing the change of the cost with the tolerance: %s' % (
                        [(show_t(a)[:80], v) for a, v in rest],), where)
                elif cs or all(g.op in ('ge0', 'not', 'eq0') for g, _ in tolf):
                    col.bad('stop', f, 'left under a condition other than |cost change| < tolerance: %s' % (
                        [(show_t(a)[:160], v) for a, v in tolf],), where)
                else:
                    col.unk('stop', f, 'condition not understood: %s' % ([(show_t(a)[:80], v) for a, v in tolf],), where)
            if not L.breaks:
                col.bad('stop', f, 'the loop never stops early, whatever the change of the cost', where)
            if L.back is not None:
                cs = cost_change([fv for fv in L.back.facts if fv not in L.entry.facts], tol)
                if any((not s_) and is_cost_change(D, L, cost if j == 0 else None) for D, s_ in cs):
                    col.ok('continue', f, 'goes on when |cost change| >= tolerance', where)
                elif L.breaks and not any(mentions(fv[0], tol) for fv in L.back.facts if fv not in L.entry.facts):
                    col.bad('continue', f, 'goes on although the change of the cost may be below the tolerance', where)
                else:
                    col.unk('continue', f, 'condition not understood', where)
            # count
            if fit and j == 0:
                if 'n_iter_' not in at:
                    col.bad('count', '%s.n_iter_' % model, 'not set by %s' % name)
                else:
                    v = x.t(at['n_iter_'])
                    kk = L.k
                    for val, want, what in ((True, s_add(kk, const(1)), 'stopped early'), (False, maxit, 'used up')):
                        g = cof(v, L.brk, val)
                        if prove.prove_eq(g, want):
                            col.ok('count', '%s.n_iter_ %s' % (model, what), 'is %s' % neat(want, L), where)
                        elif atoms_within(g, {kk, maxit}):
                            col.bad('count', '%s.n_iter_ %s: %s instead of %s' % (model, what, neat(g, L), neat(want, L)),
                                    'wrong number of iterations', where)
                        else:
                            col.unk('count', '%s.n_iter_ %s' % (model, what), show_t(g), where)
            # warnings
            warns(col, x, evs, L, f, maxit, tol, where)
    col.functions |= x.I.seen_functions
    col.count('calls_into_package', x.I.user_calls)


def warns(col, x, evs, L, f, maxit, tol, where):
    got = maybe = False
    for e in evs:
        if e.kind != 'warn':
            continue
        if any(c.op == 'atom' and str(c.args[0]).startswith('brk@') and v == 'iter' for c, v in e.pc):
            continue                                     # given inside an iteration: about something else
        if not any(isinstance(c, Term) and (L.brk in tm.free_atoms(c) or mentions(c, maxit) or mentions(c, tol))
                   for c, v in e.pc):
            if e.pc:
                continue
        state = {}
        for val in (False, True):
            r = True
            for c, v in e.pc:
                g = cof(c, L.brk, val)
                dec = truth(x, g, tol, val, L, maxit)
                if dec is None:
                    r = None if r is not False else False
                elif dec != v:
                    r = False
            state[val] = r
        if state[False] is True:
            got = True
        elif state[False] is None:
            maybe = True
        if not any(isinstance(c, Term) and L.brk in tm.free_atoms(c) for c, v in e.pc) and other_loop(e, L):
            continue
        if state[True] is False:
            col.ok('quiet', f, 'the warning in %s is not given after an early stop' % e.func, e.where())
        else:
            col.decide(False if state[True] or all(
                atoms_within(cof(c, L.brk, True), {L.k, maxit, tol}) for c, v in e.pc) else None, 'quiet', f,
                'the warning in %s can be given after an early stop, under %s' % (
                    e.func, [(neat(c, L)[:80], v) for c, v in e.pc]), e.where())
    if got:
        col.ok('warn', f, 'a warning is given exactly when the loop runs out of iterations and tolerance > 0', where)
    elif maybe:
        col.unk('warn', f, 'condition of the warning not understood', where)
    else:
        col.bad('warn', f, 'no warning when the iterations are used up without meeting a positive tolerance', where)


def other_loop(e, L):
    return any(c.op == 'atom' and str(c.args[0]).startswith('brk@') and c is not L.brk for c, v in e.pc)


def truth(x, g, tol, val, L, maxit):
    """Truth of a path condition when the loop stopped early (val) or not, for a positive tolerance."""
    if g.op == 'const':
        return bool(tm.cval(g))
    neg = False
    h = g
    while h.op == 'not':
        h, neg = h.args[0], not neg
    x.I.sync(x.st)
    pos = tm.s_sub(tol, const(0))
    if h.op == 'ge0':
        a = h.args[0]
        if prove.prove_ge0(a):
            return not neg
        if prove.prove_gt0(s_neg(a)):
            return neg
        if prove.prove_eq(a, s_neg(tol)):              # tol <= 0
            return neg
    if h.op == 'eq0':
        if prove.prove_eq(h.args[0], const(0)):
            return not neg
        if prove.prove_eq(h.args[0], tol) or prove.prove_eq(h.args[0], s_neg(tol)):
            return neg
    if h.op == 'truth' and h.args[0] is tol:
        return not neg
    if g.op == 'and' or g.op == 'or':
        rs = [truth(x, q, tol, val, L, maxit) for q in (g.args[0] if isinstance(g.args[0], (tuple, frozenset)) else g.args)]
        if g.op == 'and':
            return False if False in rs else (True if all(r is True for r in rs) else None)
        return True if True in rs else (False if all(r is False for r in rs) else None)
    return None


def main(tier):
    return run('C17', analyse, configs(tier), RULES,
               'Loop summaries of the fixpoint engine: for every loop limited by max_iterations, the trip count, the '
               'conditions on its exit edges and its back edge, the value of the iteration counter on each exit and the '
               'path condition of the warnings that follow are compared as value terms.', tier,
               need=('limit', 'stop', 'count', 'warn'))
