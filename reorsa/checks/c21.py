"""C21: no division by a count, weight total or component-count expression that can be zero."""
from itertools import product
from ..scen import *
from ..deps import *
from ..report import run
from ..terms import cval

RULES = {
    'divisor': 'a divisor made of sizes, counts or weight totals is never zero on the paths that divide by it',
    'root': 'a squared distance formed by subtraction is bounded below by zero before its root is taken',
    'solve': 'no Gram matrix of the data is inverted: it is singular for duplicated samples and empty components',
}


def configs(tier):
    out = helper_configs()
    for c in basic(tier):
        out.append(Conf(dict(c, chain='fit_transform>predict' if c['model'] in (CROM, MTD, KMC) else 'fit_transform')))
    return out


def atoms_of(p):
    return {a for m in p for a, e in m}


def split(t):
    """The cases of a scalar: conditions and maxima replaced by their alternatives."""
    for u in tm.subterms(t):
        if u.op == 'ite' and u.shape == ():
            return split(tm.subst(t, {u: u.args[1]})) + split(tm.subst(t, {u: u.args[2]}))
        if u.op in ('max', 'min'):
            return [w for a in u.args[0] for w in split(tm.subst(t, {u: a}))]
    return [t]


def random_total(t):
    return t.op == 'sum' and t.args[0].op == 'draw' and t.args[0].args[0] == 'uniform'


def nonzero(t, depth=0):
    if t.shape not in ((), None):
        return nonzero_array(t)
    if prove.prove_ne(t, const(0)) or random_total(t):
        return True
    p = tm.to_poly(t)
    for a in list(atoms_of(p)):
        if all(any(b is a and e > 0 for b, e in m) for m in p) and not (len(p) == 1 and len(next(iter(p))) == 1):
            q = {tm.mmul(m, ((a, -1),)): c for m, c in p.items()}
            if (prove.prove_ne(a, const(0)) or random_total(a)) and nonzero(tm.from_poly(q), depth + 1):
                return True
    if depth < 4:
        cases = split(t)
        if len(cases) > 1:
            return all(nonzero(c, depth + 1) for c in cases)
    return False


def nonzero_array(t):
    t = core(t)
    if t.shape == ():
        return nonzero(t)
    if random_total(t):
        return True
    if t.op == 'ew' and t.args[0] == 'where':
        c, a, b = t.args[1:]
        return (nonzero_array(a) or excludes_zero(c, True, a)) and (nonzero_array(b) or excludes_zero(c, False, b))
    if t.op == 'ew' and t.args[0] in ('fmax', 'max', 'maximum'):
        return any(is_pos(a) for a in t.args[1:])
    if t.op == 'carr':
        return all(nonzero(u) for u in t.args[0])
    if t.op in ('eye', 'zeros'):
        return False
    return is_pos(t)


def is_pos(t):
    t = core(t)
    return t.shape == () and prove.prove_gt0(t)


def core(t):
    """Without broadcasts, added axes and constant fills."""
    while True:
        if t.op == 'bcast' or t.op == 'index' and all(x[0] in ('a', 'n') for x in t.args[1]):
            t = t.args[0]
        elif t.op == 'ones':
            return const(1)
        elif t.op == 'full':
            t = t.args[1]
        elif t.op == 'lin' and len(t.args[0]) == 1 and t.args[0][0][0].op == 'ones':
            t = t.args[0][0][1]
        else:
            return t


def is_zero(t):
    t = core(t)
    return t is const(0) or t.op == 'zeros' or tm.is_num_const(t) and cval(t) == 0 or t.op == 'lin' and not t.args[0]


def excludes_zero(c, val, t):
    """Where the condition c has the value val, t is not zero."""
    c = core(c)
    while c.op == 'ew' and c.args[0] in ('not', 'invert', 'logical_not'):
        c, val = core(c.args[1]), not val
    if c.op == 'ew' and c.args[0] in ('lt', 'le', 'eq', 'ne'):
        a, b = core(c.args[1]), core(c.args[2])
        t = core(t)
        op = c.args[0]
        if a is t and is_zero(b):
            return val and op in ('lt', 'ne') or not val and op in ('le', 'eq')
        if b is t and is_zero(a):
            return val and op in ('lt', 'ne') or not val and op in ('le', 'eq')
        pos = lambda u: tm.is_num_const(u) and tm.frac(cval(u)) > 0
        if b is t and pos(a):
            return val
        if a is t and pos(b):
            return not val and op in ('lt', 'le')
    return False


def total(u):
    """A count or a total over samples that nothing keeps from being zero."""
    u = core(u)
    if u.op == 'count':
        return True
    if u.op != 'sum' or u.args[0].op in ('draw', 'mul') or squares(u.args[0]):
        return False
    a, ax = u.args[0], u.args[1]
    # rows of weights have unit sums: only totals over samples can vanish
    return len(a.shape) == 1 or ax in (0, (0,), (const(0),), ('0',))


def squares(t):
    return t.op in ('pow', 'ew') and t.args[0] in ('pow', 'square', 'abs') or t.op == 'pow'


def can_be_zero(t):
    """None, or how the divisor becomes zero."""
    t = core(t)
    if t.shape not in ((), None):
        if total(t):
            return 'the total %s' % tm.show(t, 3)
        if t.op == 'ew' and t.args[0] == 'where':
            for val, b in ((True, t.args[2]), (False, t.args[3])):
                if not nonzero_array(b) and not excludes_zero(t.args[1], val, b):
                    w = can_be_zero(b)
                    if w:
                        return w
        return None
    if t is const(0):
        return 'the constant zero'
    for c in split(t):
        w = scalar_zero(c)
        if w:
            return w
    return None


def scalar_zero(t):
    if t is const(0):
        return 'the constant zero'
    p = tm.to_poly(t)
    at = sorted(atoms_of(p), key=lambda a: a.id)
    for a in at:
        if len(p) == 1 and total(a):
            return 'the total %s' % tm.show(a, 3)
    if not at or any(e < 0 for m in p for a, e in m):
        return None
    tot = [a for a in at if total(a)]
    if any(a.op != 'atom' and a not in tot or a.op == 'atom' and not prove.is_int(a) for a in at) or len(at) > 4:
        return None
    ctx = prove.CUR[0]
    rng = []
    for a in at:
        m = tm.meta(a) if a.op == 'atom' else {}
        lo = m.get('lo', 0)
        rng.append(range(int(lo) if lo is not None else 0, 16))
    cons = [(f, s_) for s_, l in (('ge', ctx.ge), ('gt', ctx.gt), ('eq', ctx.eq), ('ne', ctx.ne)) for f in l
            if tm.free_atoms(f) and atoms_of(tm.to_poly(f)) <= set(at)]
    for vals in product(*rng):
        s_ = dict(zip(at, vals))
        if ev(p, s_) != 0:
            continue
        ok = True
        for f, r in cons:
            v = ev(tm.to_poly(f), s_)
            ok = ok and (v >= 0 if r == 'ge' else v > 0 if r == 'gt' else v == 0 if r == 'eq' else v != 0)
        if ok:
            return ', '.join('%s = %d' % (tm.show(a, 2), v) for a, v in s_.items())
    return None


def ev(p, s_):
    r = 0
    for m, c in p.items():
        v = c
        for a, e in m:
            if e < 0 and s_[a] == 0:
                return 1
            v = v * (s_[a] ** e if e >= 0 else 1 / s_[a] ** -e)
        r += v
    return r


def in_scope(t):
    """Made of sizes, counts, draws and totals; not a difference of costs."""
    t = core(t)
    if t.shape not in ((), None):
        return True
    for a in atoms_of(tm.to_poly(t)):
        if a.op in ('phi', 'ext') or a.op == 'sum' and a.args[0].op == 'mul' or a.op == 'trace' or a.op == 'grp':
            return False
    return True


def root(t):
    """True: bounded below; False: an unbounded difference; None: cannot say."""
    t = core(t)
    if t.op == 'ew' and t.args[0] in ('fmax', 'maximum'):
        return True if any(is_zero(a) or is_pos(a) for a in t.args[1:]) else None
    if t.op == 'ew' and t.args[0] in ('abs', 'square', 'clip'):
        return True
    if t.op == 'ew' and t.args[0] == 'where':
        c, a, b = t.args[1:]
        return True if all(excl_neg(c, v, u) or is_zero(u) or is_pos(u) for v, u in ((True, a), (False, b))) else None
    if t.op == 'lin' and any(tm.frac(c) < 0 if not isinstance(c, Term) else tm.is_num_const(c) and tm.frac(cval(c)) < 0
                             for _, c in t.args[0]):
        return False
    return None


def excl_neg(c, val, t):
    c = core(c)
    if c.op == 'ew' and c.args[0] in ('lt', 'le'):
        a, b = core(c.args[1]), core(c.args[2])
        if a is core(t) and is_zero(b):
            return not val
        if b is core(t) and is_zero(a):
            return val
    return False


def gram(t):
    t = core(t)
    if t.op == 'dot' and len(t.args) == 2:
        a, b = t.args
        return a.op == 'T' and a.args[0] is b or b.op == 'T' and b.args[0] is a
    return False


def events(x, evs, col):
    for e in evs:
        if e.kind == 'div':
            d = e.data['den']
            if e.data.get('guarded'):
                continue
            prove.set_ctx(e.facts)
            c = '%s: %s' % (e.func, e.text[:120])
            if tm.is_num_const(d) and cval(d) != 0:
                continue
            if nonzero(d):
                if in_scope(d):
                    col.ok('divisor', c, '')
                continue
            w = can_be_zero(d)
            if w:
                col.bad('divisor', c, 'the divisor can be zero: %s' % w, e.where())
            elif in_scope(d):
                col.unk('divisor', c, tm.show(d, 4)[:200])
        elif e.kind == 'sqrt':
            r = root(e.data['arg'])
            if r is not None:
                c = '%s: %s' % (e.func, e.text[:120])
                (col.ok if r else col.bad)('root', c, '' if r else 'can be negative by rounding, which gives NaN', e.where())
        elif e.kind == 'solve':
            m = e.data['matrix']
            c = '%s: %s' % (e.func, e.text[:120])
            if gram(m):
                col.bad('solve', c, 'the Gram matrix %s can be singular' % tm.show(m, 3)[:100], e.where())
            else:
                col.unk('solve', c, tm.show(m, 3)[:150])


def analyse(conf, col):
    if 'helper' in conf:
        x, ins, r = run_helper(conf)
        col.functions |= x.I.seen_functions
        events(x, x.I.events, col)
        col.count('helpers')
        return
    k = Ctx(conf)
    x = k.x
    for i, name in enumerate(conf['chain'].split('>')):
        m = x.mark()
        step(k, name, i, i == 0)
        events(x, x.new_events(m), col)
        if x.dead:
            break
    col.functions |= x.I.seen_functions


def main(tier):
    return run('C21', analyse, configs(tier), RULES,
               'Every division, root and inversion that a fit can reach is an obligation: its divisor is a polynomial in '
               'symbolic sizes, counts and totals, and has to be non-zero under the conditions of the paths that reach it; '
               'divisors of line searches (differences of costs) belong to C05.',
               tier, need=('divisor', 'root'),
               assumptions=['totals of uniform random draws are positive (they are so with probability one)'])
