"""C16: a failed weights solve leaves the weights alone and warns."""
from ..scen import *
from ..loops import *
from ..report import run

SOLVED = ('optimal', 'optimal_inaccurate')
FAILED = ('infeasible', 'infeasible_inaccurate', 'unbounded', 'unbounded_inaccurate', 'infeasible_or_unbounded',
          'user_limit', 'solver_error', None)

RULES = {
    'keep': 'with a solver status that is not a solution, no weights and no learned attribute depend on the solver output, '
            'and the weights keep their previous value',
    'warn': 'with a solver status that is not a solution, a warning is given',
    'take': 'with a solved status the weights are those of the solution',
    'fault': 'the failed solve does not make the fit fail',
}


def configs(tier):
    out = []
    models = [C(FKM, K=K2, tv=0, init='custom'), C(FKM, K=K2, tv=1, init='custom'), C(FKM, K=K2, tv=1),
              C(FVX, K=2, tv=1, u=0, memory=1, init='custom'), C(FVX, K=2, tv=0, u=0, memory=(0, 1))]
    if tier == 'thorough':
        models += [c for c in fembvs(tier) if c not in models and c.get('K') != 1]
    for c in models:
        for s_ in SOLVED + FAILED:
            for ch in ('fit_transform', 'fit>transform'):
                c2 = Conf(c)
                c2['status'] = s_
                c2['chain'] = ch
                out.append(c2)
    return out


def has(t, op):
    return isinstance(t, Term) and any(u.op == op for u in tm.subterms(t))


def closure_has(x, t, op, seen=None):
    """Does op occur in t or in what its loop values are made of?"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        u = st.pop()
        if not isinstance(u, Term) or u in seen:
            continue
        seen.add(u)
        for v in tm.subterms(u):
            if v.op == op:
                return True
            if v in PHIINFO:
                st += [PHIINFO[v][0], PHIINFO[v][1]]
    return False


def analyse(conf, col):
    status = conf['status']
    name = 'None' if status is None else status
    k = Ctx(conf, options={'lp_status': 'no status' if status is None else status})
    x = k.x
    model = conf['model'].rsplit('.', 1)[1]
    for i, meth in enumerate(conf['chain'].split('>')):
        m = x.mark()
        since = set(LOOPS)
        r = step(k, meth, i, i == 0)
        evs = x.new_events(m)
        f = '%s.%s' % (model, meth)
        faults = [e for e in evs if e.kind in ('none-operand', 'unbound', 'noattr', 'notcallable')]
        if x.dead:
            if status in SOLVED:
                col.unk('take', f, 'no path returns')
            else:
                e = (faults or [e for e in evs if e.kind == 'raise'] or [None])[-1]
                col.bad('fault', f, 'the fit fails when the status is %s: %s' % (name, e and e.text[:100]),
                        e.where() if e else '')
            return
        lp = [e for e in evs if e.kind == 'call-ext' and 'solve' in str(e.data)]
        res = {'the result': x.t(r) if meth != 'fit' else None}
        for a, v in x.attrs(k.o).items():
            res[a] = x.t(v)
        dep = sorted(a for a, t in res.items() if isinstance(t, Term) and closure_has(x, t, 'lpvalue'))
        if status in SOLVED:
            w = 'Gamma' if meth == 'fit' else 'the result'
            if dep and ('the result' in dep or meth == 'fit'):
                col.ok('take', f, 'status %s: %s come from the solution' % (name, ', '.join(dep)))
            else:
                col.bad('take', f, 'the weights do not depend on the solution although the status is %s' % name)
            continue
        if dep:
            col.bad('keep', f, '%s depend on the solver output although the status is %s' % (', '.join(dep), name))
        else:
            t = res['the result']
            init = x.t(k.fkw['weights']) if 'weights' in k.fkw and i == 0 else None
            ls = [L for L in session_loops(x, since)]
            if t is not None and init is not None and t is not init and not prove_same(t, init):
                col.unk('keep', f, 'weights after failed solves: %s' % show_t(t))
            else:
                col.ok('keep', f, 'status %s: weights keep their initial value' % name)
        ws = [e for e in evs if e.kind == 'warn' and any(str(c.args[0]).startswith('brk@') and v == 'iter'
                                                         for c, v in e.pc if c.op == 'atom')]
        sure = [e for e in ws if all(v == 'iter' or (c.op == 'const' and tm.cval(c) == v) for c, v in e.pc)]
        if sure:
            col.ok('warn', f, 'status %s: %s warns' % (name, sure[0].func), sure[0].where())
        else:
            col.decide(None if ws else False, 'warn', f, 'no warning when the status is %s' % name)
    col.functions |= x.I.seen_functions


def show_t(t):
    return tm.show(t)[:200] if isinstance(t, Term) else str(t)


def prove_same(a, b):
    return a is b


def main(tier):
    return run('C16', analyse, configs(tier), RULES,
               'Value-flow of the solver output under every solver status: the status is a constant of the analysis, and '
               'the closure of the returned weights and of all attributes (through loop values) is searched for the '
               'solution vector.', tier, need=('keep', 'warn', 'take'))
