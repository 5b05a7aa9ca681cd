"""C07: with an integer random_state, all randomness comes from that seed."""
from ..scen import *
from ..deps import *
from ..report import run

RULES = {
    'global': 'no draw from, and no reseeding of, the global generator or a generator seeded from entropy',
    'source': 'the generator of every draw is seeded from random_state and from nothing else that varies between runs',
    'result': 'no returned value or attribute is computed from the global generator, entropy, a clock, an address or a hash',
    'shared': 'no call writes module-level, class-level or default-argument state, which a second run would see',
}
NONDET = ('time', 'entropy', 'impure')


def configs(tier):
    return helper_configs() + chained(basic(tier), tier)


def varies(u):
    """Terms whose value differs between two runs of the same program."""
    if u.op == 'ext':
        return u.args[0] in NONDET
    return u.op == 'atom' and (u.args[0] == 'numpy.random')


def shared_before(x):
    return {loc: c for loc, c in x.I.mod_state.heap.items() if loc not in (('global-rng',), ('lp',))}


def same_cell(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Frame):
        return all(a.vars.get(k) == v or a.vars.get(k) is v for k, v in b.vars.items() if k in a.vars)
    return all(getattr(a, k) == getattr(b, k) for k in getattr(a, '__slots__', ('cls', 'attrs')))


def judge(x, f, evs, seed, outs, before, col):
    """The four rules for one call."""
    g = [e for e in evs if e.kind == 'global-rng']
    for e in g:
        col.bad('global', '%s: %s' % (e.func, e.text[:120]), '%s in %s' % (e.data.get('name'), f), e.where())
    if not g:
        col.ok('global', f, 'no use of the global generator in %d events' % len(evs))
    dr = [e for e in evs if e.kind == 'draw']
    for e in dr:
        cl = Closure([e.data['state']])
        h = cl.find(varies)
        if h:
            col.bad('source', '%s: %s' % (e.func, e.text[:120]), 'generator depends on %s' % cl.trace(h[0]), e.where())
        elif seed is not None and seed not in cl:
            col.bad('source', '%s: %s' % (e.func, e.text[:120]), 'generator is not seeded from random_state: %s' % (
                tm.show(e.data['state'], 3)[:200]), e.where())
        else:
            col.ok('source', '%s: %s' % (e.func, e.text[:120]))
    n, hit = 0, False
    for a, ts in outs.items():
        cl = Closure(ts)
        n += 1
        h = cl.find(varies)
        if h:
            hit = True
            col.bad('result', '%s: %s' % (f, a), 'depends on %s' % cl.trace(h[0]))
    if not hit:
        col.ok('result', f, '%d values' % n)
    sh = [e for e in evs if e.kind == 'shared-state' or e.kind in ('mutate', 'setattr') and e.data.get('loc') in before]
    for e in sh:
        col.bad('shared', '%s: %s' % (e.func, e.text[:120]), 'state shared between objects and runs is modified: %s' % (
            e.data.get('name') or e.data.get('loc'),), e.where())
    if not sh:
        ch = [loc for loc, c in before.items() if loc in x.st.heap and not same_cell(x.st.heap[loc], c)]
        col.decide(not ch, 'shared', f, 'changed: %s' % ch[:3] if ch else '%d shared cells unchanged' % len(before))


def analyse(conf, col):
    if 'helper' in conf:
        x, ins, r = run_helper(conf)
        seed = iatom('seed', 0) if 'stochastic' in conf['helper'] else None
        judge(x, conf['helper'], x.I.events, seed, {'the result': cell_terms(x.st, r)}, shared_before(x), col)
        col.functions |= x.I.seen_functions
        return
    k = Ctx(conf)
    x = k.x
    before = shared_before(x)
    model = conf['model'].rsplit('.', 1)[1]
    for i, name in enumerate(conf['chain'].split('>')):
        m = x.mark()
        r = step(k, name, i, i == 0)
        f = '%s.%s' % (model, name)
        if x.dead:
            col.unk('result', f, 'no path returns (see C22)')
            return
        x.I.sync(x.st)
        outs = {'the result': cell_terms(x.st, r)}
        for a, v in x.attrs(k.o).items():
            outs[a] = cell_terms(x.st, v)
        judge(x, f, x.new_events(m), k.y['seed'], outs, before, col)
    col.functions |= x.I.seen_functions


def main(tier):
    return run('C07', analyse, configs(tier), RULES,
               'Taint analysis with the generators as values: every draw is a function of a generator state; the states, the '
               'results and the attributes are traced to their sources, which must not include the global generator, '
               'entropy, clocks, addresses, hashes or state shared between objects.', tier,
               assumptions=('the iteration order of sets and the thread scheduling of BLAS are not modelled',),
               need=('global', 'source', 'result', 'shared'))
