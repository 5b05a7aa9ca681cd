"""C09: the outcome of a fit depends on the settings, the generator and its arguments, not on earlier calls."""
from ..scen import *
from ..deps import *
from ..report import run

RULES = {
    'outcome': 'the value returned by a refit is not computed from arguments of earlier calls',
    'attribute': 'no public attribute after a refit is computed from arguments of earlier calls, or left over from them',
    'exception': 'no exception or warning of a refit is conditional on something computed from earlier calls',
    'refit': 'a refit with other sizes, or without the optional arguments of the first fit, can return',
}
FITS = ('fit', 'fit_transform', 'fit_predict')


def configs(tier):
    out = []
    for c in basic(tier) + [C(m, init='random', K='none') for m in (KAA, AA, GPNH, CROM, MTD)] + [C(FKM, K='none', tv=1)]:
        m = c['model']
        if m in (KAA, AA, GPNH):
            chs = ['fit>fit_transform', 'fit_transform>transform>inverse_transform>fit']
        elif m in (CROM, MTD):
            chs = ['fit>fit_transform', 'fit_transform>predict>fit']
        elif m in (FKM, FVX):
            chs = ['fit>fit_transform', 'fit_transform>transform>fit']
        elif m == PWV:
            chs = ['fit>fit_transform', 'fit_transform>transform>fit']
        else:
            chs = ['fit>fit_predict', 'fit_transform>predict>fit', 'fit_predict>transform>fit_transform',
                   'fit(w)>fit', 'fit(w)>fit_predict']
        out += [Conf(dict(c, chain=ch)) for ch in chs]
        if c.get('u'):
            out.append(Conf(dict(c, chain='fit>fit(no u)')))
            if m == FVX:
                out.append(Conf(dict(c, u=0, chain='fit>fit(u)')))
    return out


def is_state(u):
    """Generator states: a refit may depend on them."""
    if u.op in ('next', 'seed'):
        return True
    i = PHIINFO.get(u)
    return i is not None and isinstance(i[0], Term) and i[0].op in ('next', 'seed')


def inputs(x, vals):
    """Atoms that stand for the arguments of a call."""
    ts = []
    for v in vals:
        ts += cell_terms(x.st, v)
    out = set()
    for t in ts:
        if isinstance(t, Term):
            out |= set(tm.free_atoms(t))
            for d in t.shape or ():
                out |= set(tm.free_atoms(d))
    return out


def analyse(conf, col):
    k = Ctx(conf)
    x = k.x
    m = conf['model']
    model = m.rsplit('.', 1)[1]
    settings = inputs(x, list(k.kw.values()) + [k.K])
    old = set()
    steps = conf['chain'].split('>')
    for i, full in enumerate(steps):
        name = full.split('(')[0]
        tag = "'" * i
        mk = x.mark()
        pcs = set(x.st.pc)
        if name in FITS:
            if full.endswith('(no u)'):
                k.conf = Conf(dict(conf, u=0))
            elif full.endswith('(u)'):
                k.conf = Conf(dict(conf, u=1))
            X, kw, z = k.data(tag)
            if full.endswith('(w)'):
                kw['sample_weight'] = x.arr('sample_weight' + tag, (z['n'],))
            k.X = X
            new = inputs(x, [X] + list(kw.values()))
            for u in (kw.get('exog'), kw.get('external_factors')):
                if u is not None:
                    k.U = x.t(u)
            r = k.fit(X, kw, name)
        else:
            r = step(k, name, i, False)
            new = inputs(x, [k.last])
        f = '%s.%s' % (model, name)
        evs = x.new_events(mk)
        if x.dead:
            why = [e for e in evs if e.kind in ('raise', 'noattr', 'unbound', 'none-operand', 'keyerror', 'shape', 'bind')]
            if i and name in FITS:
                (col.bad if why else col.unk)('refit', '%s after %s' % (f, steps[0]), 'cannot return: %s' % (
                    why and '%s in %s' % (why[-1].text, why[-1].func)))
            else:
                col.unk('refit', f, 'no path returns (see C22)')
            return
        if i and name in FITS:
            col.ok('refit', f)
            stale = old - new - settings
            what = lambda u: u in stale

            def clos(ts):
                return Closure(ts, stop=is_state).find(what)
            ts = cell_terms(x.st, r) if name != 'fit' else []
            cl = Closure(ts, stop=is_state)
            h = cl.find(what)
            col.decide(not h, 'outcome', f, 'depends on an earlier call: %s' % cl.trace(h[0]) if h else
                       '%d earlier inputs, %d terms' % (len(stale), len(cl.seen)))
            for a, v in sorted(x.attrs(k.o).items()):
                if a.startswith('_'):
                    continue
                ts = cell_terms(x.st, v)
                cl = Closure(ts, stop=is_state)
                h = cl.find(what)
                col.decide(not h, 'attribute', '%s: %s' % (f, a), 'after %s it depends on an earlier call: %s' % (
                    conf['chain'], cl.trace(h[0])) if h else '')
            n = hit = 0
            for e in evs:
                if e.kind not in ('raise', 'warn'):
                    continue
                n += 1
                for c, v in e.pc:
                    if (c, v) in pcs or not isinstance(c, Term):
                        continue
                    cl = Closure([c], stop=is_state)
                    h = cl.find(what)
                    if h:
                        hit += 1
                        col.bad('exception', '%s: %s' % (e.func, e.text[:100]), 'conditional on an earlier call: %s' % (
                            cl.trace(h[0])), e.where())
                        break
            if not hit:
                col.ok('exception', f, '%d exceptions and warnings' % n)
        old |= new
    col.functions |= x.I.seen_functions


def main(tier):
    return run('C09', analyse, configs(tier), RULES,
               'Information-flow analysis over sequences of public calls on one object: the arguments of every call are '
               'separate symbols; after a refit the dependency closure of the returned value, of every public attribute and '
               'of every condition of an exception must be free of the symbols of earlier calls (generator states '
               'excepted).', tier, need=('outcome', 'attribute', 'exception', 'refit'))
