"""C04: every descent step follows the exact gradient of the current objective."""
from ..scen import *
from ..loops import *
from ..report import run
from ..search import *
from .. import nf
from .c05 import prepare, configs

RULES = {
    'gradient': 'the point the search aims at is (the projection of) factor - alpha * gradient, with the exact gradient of the '
                'objective at the current factors',
    'joint': 'factors that move together use one step length alpha',
    'sign': 'alpha is positive',
}


def analyse(conf, col):
    k = prepare(conf)
    x, y = k.x, k.y
    model = conf['model'].rsplit('.', 1)[1]
    for i, name in enumerate(conf['chain'].split('>')):
        since = set(LOOPS)
        step(k, name, i, i == 0)
        if x.dead:
            col.unk('gradient', '%s.%s' % (model, name), 'no path returns (see C22)')
            return
        fit = name in ('fit', 'fit_transform')
        for main_, searches in mains(x, k, y, since, fit, x.attrs(k.o)):
            for s_ in searches:
                f = '%s (%s)' % (s_.func, name)
                if main_.H is None or not s_.ok:
                    col.unk('gradient', f, 'the objective or the search was not recognised', s_.where)
                    continue
                if not s_.factors:
                    col.count('searches that move no factor')
                    continue
                one(col, k, s_, f)
    col.functions |= x.I.seen_functions


def one(col, k, S_, f):
    M = S_.main
    x = k.x
    cl = M.closure
    fixed = {p: cl.close(v) for p, v in S_.fixed.items()}
    ent = {a: cl.close(e) for a, p, e, _, _ in S_.factors}
    x.I.sync(x.st)
    for mx, facts in orders(k, M.H, *ent.values()):
        try:
            by_orders(k, facts, lambda base: compare(col, k, S_, f, mx, fixed, ent, base))
        except nf.Hard as e:
            col.unk('gradient', f, 'not in normal form: %s' % e, S_.where)


def compare(col, k, S_, f, mx, fixed, ent, base):
    M, w = S_.main, S_.where
    # the other factors are constants for the derivative, also when their values came from this one
    hold = {p: atom('held %s' % tm.show(p), p.shape) for p, v in fixed.items() if v is not p}
    back = {h: tm.subst(fixed[p], mx) for p, h in hold.items()}
    H = nf.scalar(tm.subst(tm.subst(M.H, mx), hold))
    rs = []
    for a, p, _, _, _ in S_.factors:
        e = tm.subst(ent[a], mx)
        Y = unproject(e)
        direct = Y is None
        Y = e if direct else Y
        g = '%s: %s' % (f, a)
        pairs = []                                        # (old - target, gradient) per letter of the factor
        if len(p.shape) == 2:
            pairs.append((nf.madd(nf.matrix(p), nf.matrix(Y), const(-1)), nf.replace(nf.gradient(H, p), back, False), False))
        elif p.shape[0].op == 'const':
            for i in range(tm.cval(p.shape[0])):
                l = nf.pick(p, i)
                y = Y[i] if isinstance(Y, list) else nf.pick(Y, i)
                if l.shape == ():
                    pairs.append((nf.madd(nf.scalar(l), nf.scalar(y), const(-1)), nf.replace(nf.derivative(H, l), back, True), True))
                else:
                    pairs.append((nf.madd(nf.matrix(l), nf.matrix(y), const(-1)), nf.replace(nf.gradient(H, l), back, False), False))
        else:
            col.unk('gradient', g, 'shape', w)
            continue
        for D, G, sc in pairs:
            D, G = nf.prune(D), nf.prune(G)
            r = ratio(D, G)
            if r is None or any(q.shape and q.op in ('phi', 'atom') for q in free(r)):
                tr = transparent(D, sc) and transparent(G, sc)
                miss = [q for q in set(D) ^ set(G)]
                col.decide(False if tr else None, 'gradient', g, 'old - target is not a multiple of the gradient (%d of %d terms '
                           'differ)' % (len(miss), len(set(D) | set(G))), w)
            elif not G and not D:
                col.ok('gradient', g, 'the objective does not depend on it', w)
            elif factor(r, M) not in (None, 1):
                col.bad('gradient', g, 'the gradient is off by the constant factor %s' % factor(r, M), w)
            else:
                rs.append((g, r))
                col.ok('gradient', g, 'old - target = %s * gradient (%d terms)' % (tm.show(r)[:60], len(G)), w)
    for g, r in rs:
        prove.set_ctx(base | frozenset(spectral(M)))
        col.decide(True if prove.prove_gt0(r) else (False if prove.prove_ge0(s_neg(r)) else None), 'sign', g, tm.show(r)[:80], w)
        if len(S_.factors) > 1:
            col.decide(True if prove.prove_eq(r, rs[0][1]) else None, 'joint', g, tm.show(r)[:60], w)


def factor(r, M):
    """c for r = c * (step length attribute)."""
    for p in M.L.phis:
        if p.shape == () and p in free(r):
            q = s_mul(r, tm.s_pow(p, const(-1)))
            if q.op == 'const':
                return tm.cval(q)
    return None


def spectral(M):
    """Positive lower bounds, by induction, of the scalar attributes that start from a constant."""
    out = []
    L = M.L
    for p in L.phis:
        E, B = PHIINFO[p][0], PHIINFO[p][1]
        if p.shape != () or not isinstance(E, Term) or not isinstance(B, Term) or E.op != 'const' or isinstance(tm.cval(E), bool) \
                or p in free(M.H) or not any(v is p for v in M.attrs.values()):
            continue
        ctx = frozenset(L.head_state.facts)

        def pos(fs, v):
            prove.set_ctx(ctx | frozenset(fs))
            return prove.prove_gt0(v)
        if all(by_cases(t, pos)[0] for t in (E, B)):
            out += plain([(ar.gt0(p), True)])[0]
    return out


def main(tier):
    return run('C04', analyse, configs(tier), RULES,
               'The objective at the head of each main loop and the target of each line search are brought to normal form '
               '(words in the factor matrices, traces of words); the gradient is formed by differentiating the normal form '
               'letter by letter, and old value - target must be one positive multiple of it, coefficient by coefficient.',
               tier, need=('gradient', 'sign'))
