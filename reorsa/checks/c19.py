"""C19: verbosity and measured times influence nothing but what is printed."""
from ..scen import *
from ..loops import *
from ..deps import *
from ..report import run

RULES = {
    'verbose': 'no result, attribute, random state, exception or warning depends on verbose',
    'time': 'no result, attribute, exception or warning depends on a clock',
    'silent': 'nothing is printed when verbose is zero',
}


def configs(tier):
    return helper_configs() + [Conf(dict(c, zero=z)) for c in chained(basic(tier), tier) for z in (0, 1)]


def is_time(u):
    return u.op == 'ext' and (u.args[0] == 'time' or str(u.args[0]).startswith(('time.', 'datetime')))


def analyse(conf, col):
    if 'helper' in conf:
        x, ins, r = run_helper(conf)
        pr = [e for e in x.I.events if e.kind == 'print']
        for e in pr:
            col.bad('silent', '%s: %s' % (e.func, e.text[:120]), 'printed although nothing asks for it', e.where())
        if not pr:
            col.ok('silent', conf['helper'], 'no print is reachable')
        cl = Closure(cell_terms(x.st, r) + [t for v in ins.values() for t in cell_terms(x.st, v)])
        h = cl.find(is_time)
        col.decide(not h, 'time', conf['helper'], h and cl.trace(h[0]) or '')
        col.functions |= x.I.seen_functions
        return
    zero = conf['zero']
    k = Ctx(conf, verbose=const(0) if zero else None)
    x, y = k.x, k.y
    model = conf['model'].rsplit('.', 1)[1]
    verb = y['verb']
    for i, name in enumerate(conf['chain'].split('>')):
        m = x.mark()
        r = step(k, name, i, i == 0)
        evs = x.new_events(m)
        f = '%s.%s' % (model, name)
        if x.dead:
            col.unk('silent' if zero else 'verbose', f, 'no path returns (see C22)')
            return
        if zero:
            pr = [e for e in evs if e.kind == 'print']
            for e in pr:
                pcs = [c for c, v in e.pc if v != 'iter' and c.op != 'const']
                col.bad('silent', '%s: %s' % (e.func, e.text[:120]), 'printed although verbose is zero (in %s)' % f, e.where())
            if not pr:
                col.ok('silent', f, 'no print is reachable')
            continue
        terms = {'the result': value_leaf(x, r)}
        for a, v in x.attrs(k.o).items():
            if a != 'verbose':
                terms[a] = value_leaf(x, v)
        for rule, pred in (('verbose', lambda u: u is verb), ('time', is_time)):
            hit = False
            for a, ts in terms.items():
                cl = Closure(ts)
                h = cl.find(pred)
                if h:
                    hit = True
                    col.bad(rule, '%s: %s' % (f, a), 'depends on %s: %s' % (rule, cl.trace(h[0])))
            for e in evs:
                if e.kind in ('raise', 'warn'):
                    own = pc_terms(e)
                    h = [u for c in own for u in tm.subterms(c) if pred(u)]
                    if h:
                        hit = True
                        col.bad(rule, '%s: %s' % (e.func, e.text[:100]), '%s only under a condition on %s' % (
                            'raised' if e.kind == 'raise' else 'given', rule), e.where())
            if not hit:
                col.ok(rule, f, '%d values and %d exceptions and warnings' % (
                    len(terms), sum(e.kind in ('raise', 'warn') for e in evs)))
    col.functions |= x.I.seen_functions
    col.count('print_statements', len({e.where() for e in x.I.events if e.kind == 'print'}))


def value_leaf(x, v):
    x.I.sync(x.st)
    return cell_terms(x.st, v, skip=('verbose',)) if v is not None else []


def main(tier):
    return run('C19', analyse, configs(tier), RULES,
               'Taint analysis on the value graph: the closure of every returned value, attribute, generator state and of '
               'every path condition of an exception or warning (through loop values, exits and branch conditions) is '
               'searched for the verbosity and for clock readings; with verbose = 0 as a constant, every print must be '
               'unreachable.', tier, need=('verbose', 'time', 'silent'))
