"""C05: line searches accept only sufficient decrease and always stop."""
from ..scen import *
from ..loops import *
from ..report import run
from ..search import *
from .. import nf
from fractions import Fraction as Q

RULES = {
    'start': 'the first trial step is positive and at most one',
    'shrink': 'every rejected step is replaced by a positive step that is shorter by a fixed factor',
    'stop': 'the search goes on only while the step is at least the (positive) step-size tolerance, and gives up only below it',
    'consistent': 'the factors at every trial are old + step * direction with the step of that trial, from the factors before the search',
    'evaluated': 'the cost compared in the stopping test is the objective at exactly the trial point',
    'decrease': 'the test compares with the cost at the factors before the search plus gamma * step * slope, 0 < gamma < 1',
    'alpha': 'the spectral step length stays between its configured bounds',
}


DBG = []


def configs(tier):
    out = []
    for m in (KAA, GPNH, CROM, MTD):
        out.append(C(m, init='random', K=K2, chain='fit'))
        out.append(C(m, init='random', K=K2, mono=0, chain='fit>transform'))
        out.append(C(m, init='random', K=K2, chain='fit', sig=1))
        if tier == 'thorough':
            out.append(C(m, init='custom', K=K2, chain='fit>transform'))
            out.append(C(m, init='random', K=K2, mem=2, chain='fit'))
            out.append(C(m, init='random', K=1, chain='fit'))
    out.append(C(AA, init='random', K=K2, chain='fit>transform'))
    out.append(C(GPNH, init='random', K=1, chain='fit'))
    for m in (KAA, GPNH):
        out.append(C(m, init='random', K=2, chain='fit'))
    out.append(C(KAA, init='random', K=K2, delta=1, chain='fit'))
    out.append(C(KAA, init='random', K=K2, mem=2, chain='fit'))
    for l in (2,) + ((3,) if tier == 'thorough' else ()):
        out.append(C(MTD, init='random', K=K2, lags=l, chain='fit'))
        out.append(C(CROM, init='random', K=K2, lags=l, chain='fit'))
    return out


def settings(c):
    if c.get('sig'):
        s1, s2, g = fatom('sigma_one'), fatom('sigma_two'), fatom('gamma')
        return dict(line_search_sigma_one=s1, line_search_sigma_two=s2, line_search_gamma=g), (s1, s2, g)
    return {}, ()


def prepare(conf):
    extra, ats = settings(conf)
    c = Conf(conf)
    if extra:
        c['extra'] = extra
    k = Ctx(c)
    for a in ats:
        k.x.fact(ar.gt0(a))
        k.x.fact(ar.gt0(s_sub(const(1), a)))
    k.settings = ats
    return k


def analyse(conf, col):
    k = prepare(conf)
    x, y = k.x, k.y
    model = conf['model'].rsplit('.', 1)[1]
    for i, name in enumerate(conf['chain'].split('>')):
        since = set(LOOPS)
        step(k, name, i, i == 0)
        if x.dead:
            col.unk('consistent', '%s.%s' % (model, name), 'no path returns (see C22)')
            return
        fit = name in ('fit', 'fit_transform')
        for main_, searches in mains(x, k, y, since, fit, x.attrs(k.o)):
            for s_ in searches:
                one(col, k, s_, '%s (%s)' % (s_.func, name))
            alpha(col, k, main_, '%s (%s)' % (main_.L.func, name))
    col.functions |= x.I.seen_functions


def facts_of(st):
    return frozenset(st.facts)


def one(col, k, S_, f):
    x, L = k.x, S_.L
    w = S_.where
    if not S_.ok or S_.s is None:
        col.unk('consistent', f, 'no summary of the search', w)
        return
    s, sb = S_.s, S_.sb
    E = PHIINFO[s][0]
    ev = tm.cval(E)
    col.decide(0 < ev <= 1, 'start', f, 'first step %s' % ev, w)
    base = plain(list(L.head_state.facts) + [(ar.gt0(s), True), (ar.ge0(s_sub(const(1), s)), True)])[0]
    shrink(col, k, S_, f, base)
    stop(col, k, S_, f, base)
    if S_.main.H is None:
        col.unk('evaluated', f, 'the objective at the loop head was not recognised', w)
        return
    if not S_.factors:
        col.count('searches that move no factor')
        return
    try:
        trial(col, k, S_, f)
    except nf.Hard as e:
        col.unk('evaluated', f, 'not in normal form: %s' % e, w)
    finally:
        x.I.sync(x.st)


def shrink(col, k, S_, f, base):
    s, sb = S_.s, S_.sb
    kap = [const(Q(9, 10)), const(Q(1, 2)), const(Q(99, 100))] + ([k.settings[1]] if k.settings else [])
    low = [k.settings[0]] if k.settings else [const(Q(1, 1000))]

    def positive(fs, v):
        prove.set_ctx(frozenset(base) | frozenset(fs))
        return prove.prove_gt0(v) or any(prove.prove_ge0(s_sub(v, t)) for t in low)

    def shorter(fs, v):
        prove.set_ctx(frozenset(base) | frozenset(fs))
        return any(prove.prove_ge0(s_sub(s_mul(q, s), v)) for q in kap)

    for test, text in ((positive, 'positive'), (shorter, 'shorter by a fixed factor')):
        ok, w = by_cases(sb, test)
        if not ok:
            fs, v = w
            prove.set_ctx(frozenset(base) | frozenset(fs))
            wrong = (prove.prove_ge0(s_sub(v, s)) if test is shorter else prove.prove_ge0(s_neg(v))) or unbounded(v, fs)
            ok = False if wrong else None
            text = 'the next step %s is not known to be %s' % (tm.show(v)[:120], text)
        col.decide(ok, 'shrink', f, text, S_.where)
    k.x.I.sync(k.x.st)


def stop(col, k, S_, f, base):
    L, s, sb = S_.L, S_.s, S_.sb
    tol = (k.x.attrs(k.o) or {}).get('step_size_tolerance')
    tol = k.x.t(tol) if tol is not None else None
    # the loop goes on only with a step of at least some positive constant
    ok = False
    cands = [c for c in [tol, const(Q(1, 10 ** 12))] if c is not None]
    x = k.x
    bf = [fv for fv in L.back.facts if fv not in L.head_state.facts]
    prove.set_ctx(frozenset(base) | frozenset(bf))
    ok = abs_fact(bf, sb, cands) or any(prove.prove_ge0(s_sub(sb, c)) and prove.prove_gt0(c) for c in cands)
    x.I.sync(x.st)
    mention = any(sb in walk(c) or any(a is s for a in tm.free_atoms(c)) for c, v in bf if isinstance(c, Term))
    if ok:
        col.ok('stop', f, 'the loop goes on only with a step of at least the tolerance', S_.where)
    else:
        col.decide(False if not mention or not L.breaks else None, 'stop', f,
                   'no test of the step size ends the search' if not mention else 'the test of the step size was not understood', S_.where)
    for rest, facts, st in L.breaks:
        new = [fv for fv in facts if fv not in L.head_state.facts]
        r = abs_fact(new, sb, cands, below=True) or abs_fact(new, s, cands, below=True)
        col.decide(True if r else (False if not any(uses(c, (s, sb)) for c, v in new) else None), 'stop', f,
                   'the search is given up only below the tolerance', S_.where)


def uses(c, ts):
    wk = walk(c)
    return any(t in wk for t in ts)


def abs_fact(facts, s, cands, below=False):
    """Do the facts say |s| >= tol (below: |s| < tol) for a candidate?"""
    for c, v in facts:
        neg = not v
        while isinstance(c, Term) and c.op == 'not':
            c, neg = c.args[0], not neg
        if not isinstance(c, Term) or c.op != 'ge0':
            continue
        for t in cands:
            for a in (tm.intern('abs', (s,), ()), s):
                if not neg and not below and prove.prove_eq(c.args[0], s_sub(a, t)):
                    return True
                if neg and below and prove.prove_eq(c.args[0], s_sub(a, t)):
                    return True
                if not neg and below and prove.prove_eq(c.args[0], s_sub(t, a)):
                    return True
                if neg and not below and prove.prove_eq(c.args[0], s_sub(t, a)):
                    return True
    return False


def trial(col, k, S_, f):
    x, L, s, sb, w = k.x, S_.L, S_.s, S_.sb, S_.where
    M = S_.main
    ent = {q: PHIINFO[q][0] for q in L.phis if isinstance(PHIINFO[q][0], Term)}
    bck = {q: PHIINFO[q][1] for q in L.phis if isinstance(PHIINFO[q][1], Term)}
    sig = fatom('trial step') if sb.op == 'ite' else sb
    rep = {sb: sig} if sb.op == 'ite' else {}
    # 1. where the factors are
    good = True
    for a, p, e, h, b in S_.factors:
        o = tm.subst(h, {s: const(0)})
        inc = ar.sub(e, p)
        want = ar.add(p, ar.scale(inc, sig))
        got = tm.subst(b, rep)
        r = same(got, want)
        if not r:
            r = nf_same(got, want)
        if not r:
            good = None if good else good
            r0 = nf_differs(got, want)
            if r0:
                good = False
        col.decide(True if r else (False if r0 else None), 'consistent', f,
                   '%s at a trial is its value before the search plus the step times the direction' % a, w)
    for rest, facts, st in L.breaks:
        at = x.I.attr_terms(st, k.o) or {}
        for a, p, e, h, b in S_.factors:
            v = at.get(a)
            ok = v is not None and (same(v, b) or same(v, h) or nf_same(tm.subst(v, rep), tm.subst(b, rep)))
            col.decide(True if ok else None, 'consistent', f, '%s when the search is given up is a trial point' % a, w)
    if good is not True:
        return
    # 2. what the test compares
    A = S_.guard_margin()
    if A is None:
        col.unk('evaluated', f, 'the test of the search was not understood: %s' % tm.show(L.guard)[:120], w)
        return
    n = len(col.obs)
    for case in [{}] + [c for c in S_.cases() if c]:
        for mx, facts in orders(k, M.H, A):
            by_orders(k, facts, lambda base: compare(col, k, S_, f, A, ent, bck, case | mx, sig, rep, base))
        if not case:
            if all(o[3] == 'proved' for o in col.obs[n:]):
                return                                    # otherwise by cases of how earlier loops ended
            first = col.obs[n:]
            del col.obs[n:]
    if len(col.obs) == n:
        col.obs += first


def compare(col, k, S_, f, A, ent, bck, case, sig, rep, base):
    x, s, w, M = k.x, S_.s, S_.where, S_.main
    cl = M.closure
    closed = {tag: cl.close(sub2(A, mp, rep if tag == 'B' else {})) for tag, mp in (('E', ent), ('B', bck))}
    fixed = {p: cl.close(v) for p, v in S_.fixed.items()}
    moved = {p: cl.close(v) for a, p, v, _, _ in S_.factors}
    prove.set_ctx(base)
    fixed = {p: tm.subst(v, case) for p, v in fixed.items()}
    old = {p: p for a, p, *_ in S_.factors}
    e = {p: tm.subst(v, case) for p, v in moved.items()}
    tau = fatom('tau')
    mv = {p: ar.add(p, ar.scale(ar.sub(e[p], p), tau)) for p in e}
    H = M.H
    At = {tag: nf.scalar(tm.subst(v, case)) for tag, v in closed.items()}
    Ht = nf.scalar(tm.subst(tm.subst(H, case), fixed | mv))
    H0 = nf.scalar(tm.subst(tm.subst(H, case), fixed | old))
    slope = nf.prune(nf.dtau(Ht, tau))
    HE = nf.at(Ht, tau, const(1))
    HB = nf.at(Ht, tau, sig)
    QE = nf.madd(At['E'], HE)
    QB = nf.madd(At['B'], HB)
    c = nf.sdiff(QE, H0)
    tr = all(transparent(q, True) for q in (At['E'], At['B'], HE, H0))
    detail = '' if not case else ' (%d cases of how earlier loops ended)' % 2 ** len(case)
    d = nf.sdiff(QB, nf.madd(QE, nf.mscale(c, s_sub(sig, const(1)))))
    if k.conf.get('mem', 1) != 1:
        # the largest of the remembered costs: only the difference between two trials is compared
        g = nf.sdiff(QB, QE)
        r = ratio(nf.mscale(nf.at(g, sig, const(0)), const(-1)), slope) if sig.op == 'atom' else None
        okg = r is not None and between(base, r) and nf.seq(g, nf.mscale(slope, s_mul(r, s_sub(sig, const(1)))))
        col.decide(True if okg else None, 'evaluated', f, 'the thresholds of two trials differ by gamma * slope * (difference of the steps)', w)
        return
    r = ratio(c, slope)
    if r is not None and between(base, r):
        col.ok('decrease', f, 'threshold = old cost + %s * step * slope%s' % (tm.show(r)[:40], detail), w)
        col.decide(True if not d else (False if tr else None), 'evaluated', f,
                   'the test at a later trial uses the objective there and the step of that trial', w)
    else:
        if DBG: DBG.append(dict(c=c,slope=slope,At=At,HE=HE,H0=H0,case=case,S=S_))
        col.decide(False if tr else None, 'decrease', f,
                   'the threshold of the first trial minus the cost before the search is not gamma * slope', w)


def sub2(t, mp, rep):
    return tm.subst(tm.subst(t, mp), rep)


def between(base, r):
    prove.set_ctx(base)
    return prove.prove_gt0(r) and prove.prove_gt0(s_sub(const(1), r))


def nf_same(a, b):
    try:
        return a.shape is not None and len(a.shape) in (1, 2) and nf.meq(nf.matrix(a), nf.matrix(b))
    except nf.Hard:
        return False


def nf_differs(a, b):
    try:
        if a.shape is None or len(a.shape) not in (1, 2):
            return False
        A, B = nf.matrix(a), nf.matrix(b)
        return not nf.meq(A, B) and transparent(A, False) and transparent(B, False)
    except nf.Hard:
        return False


def alpha(col, k, M, f):
    """Scalar attributes that scale the gradient in the direction: bounded by induction."""
    x, L = k.x, M.L
    if M.H is None:
        return
    at = x.attrs(k.o) or {}
    lo, hi = (x.t(at[n]) if n in at else None for n in ('line_search_alpha_min', 'line_search_alpha_max'))
    lo, hi = lo if lo is not None else const(Q(1, 1000)), hi if hi is not None else const(1000)
    for p in L.phis:
        E, B = PHIINFO[p][0], PHIINFO[p][1]
        if p.shape != () or not isinstance(E, Term) or not isinstance(B, Term) or B is p or not attr_of(M, p):
            continue
        if E.op != 'const' or isinstance(tm.cval(E), bool) or p in free(M.H):
            continue
        w = '%s:%s' % (L.file, getattr(L.node, 'lineno', 0))
        def within(fs, v):
            prove.set_ctx(frozenset(x.st.facts) | frozenset(L.head_state.facts) | frozenset(fs))
            return prove.prove_ge0(s_sub(v, lo)) and prove.prove_ge0(s_sub(hi, v))

        res, bad = True, ''
        for t in (E, B):
            ok, wit = by_cases(t, within)
            if not ok:
                fs, v = wit
                res = False if v.op == 'const' or unbounded(v, fs) or half(v, fs) else None
                bad = tm.show(v)[:100]
                break
        x.I.sync(x.st)
        col.decide(res, 'alpha', '%s: %s' % (f, nm(p)), 'between %s and %s at the start and after every update' % (tm.show(lo), tm.show(hi))
                   if res else 'the value %s is not bounded' % bad, w)


def attr_of(M, p):
    return any(v is p for v in M.attrs.values())


def nm(p):
    return tm.show(p).replace('phi<', '').rstrip('>').split('.')[-1]


def main(tier):
    return run('C05', analyse, configs(tier), RULES,
               'Loop summaries of the backtracking loops: the new step is bounded by cases of the branch that produced it; the '
               'factors at the next trial are compared with old + step * direction; the margin of the stopping test at the first '
               'and at every later trial is brought to normal form (traces of words in the factor matrices) and compared with the '
               'objective of the main loop at the trial point, the objective before the search and its directional derivative.',
               tier, need=('shrink', 'stop', 'consistent', 'evaluated', 'decrease', 'alpha'))
