"""C08: caller's objects are never modified; results returned earlier never change."""
from ..scen import *
from ..deps import *
from ..report import run

RULES = {
    'caller': 'no write reaches an array, list or dict that was passed in (except by the in-place projection helpers)',
    'results': 'no later call on the same model writes into an array that an earlier call returned',
}
IN_PLACE = ('simplex_project_vector(out)', 'simplex_project_columns', 'simplex_project_rows')


def configs(tier):
    out = helper_configs()
    for c in basic(tier):
        for ch in chains(c, tier):
            out.append(Conf(dict(c, chain='>'.join(ch))))
        m = c['model']
        out.append(Conf(dict(c, chain='fit_transform>fit_transform' if m != KMC else 'fit_predict>fit_transform>fit')))
    return out


def refs(st, v, seen):
    """Locations of the arrays, lists and dicts in a returned value."""
    work = [v]
    while work:
        w = work.pop()
        if isinstance(w, Ref):
            if w.loc in seen:
                continue
            c = st.heap.get(w.loc)
            if isinstance(c, (Arr, Lst, Dct)):
                seen[w.loc] = c
            if isinstance(c, Lst) and c.items is not None:
                work += list(c.items)
            elif isinstance(c, Dct):
                work += list(c.items.values())
        elif isinstance(w, Tup):
            work += list(w.items)
        elif isinstance(w, Alt):
            work += [w.a, w.b]
        elif isinstance(w, MaybeU):
            work.append(w.v)
    return seen


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.term is b.term
    if isinstance(a, Lst) and isinstance(b, Lst):
        return a.items == b.items and a.sym is b.sym
    if isinstance(a, Dct) and isinstance(b, Dct):
        return a.items == b.items
    return False


def caller(f, evs, col, exempt=()):
    n = hit = 0
    for e in evs:
        if e.kind != 'mutate':
            continue
        n += 1
        o = e.data.get('origin')
        if o is not None and o not in exempt:
            hit += 1
            if e.data.get('may'):
                col.unk('caller', '%s: %s' % (e.func, e.text[:120]), 'may write into argument %s' % o, e.where())
            else:
                col.bad('caller', '%s: %s' % (e.func, e.text[:120]), 'writes into the argument %s of %s' % (
                    str(o).rstrip("'"), f), e.where())
    if not hit:
        col.ok('caller', f, '%d writes, none into an argument' % n)


def analyse(conf, col):
    if 'helper' in conf:
        x, ins, r = run_helper(conf)
        ex = {'simplex_project_vector(out)': ('out',), 'simplex_project_columns': ('A',),
              'simplex_project_rows': ('A',)}.get(conf['helper'], ())
        caller(conf['helper'], x.I.events, col, ex)
        col.functions |= x.I.seen_functions
        return
    k = Ctx(conf)
    x = k.x
    model = conf['model'].rsplit('.', 1)[1]
    early = []
    for i, name in enumerate(conf['chain'].split('>')):
        m = x.mark()
        r = step(k, name, i, i == 0)
        f = '%s.%s' % (model, name)
        evs = x.new_events(m)
        caller(f, evs, col)
        if x.dead:
            col.unk('results', f, 'no path returns (see C22)')
            return
        for g, locs in early:
            bad = False
            for loc, c in locs.items():
                if same(x.st.heap[loc], c):
                    continue
                bad = True
                w = [e for e in evs if e.kind == 'mutate' and e.data.get('loc') == loc]
                may = w and all(e.data.get('may') for e in w)
                what = '%s: %s' % (w[0].func, w[0].text[:120]) if w else f
                (col.unk if may else col.bad)('results', what, '%s changes what %s returned earlier' % (f, g),
                                              w[0].where() if w else '')
            if not bad:
                col.ok('results', '%s after %s' % (f, g), '%d objects unchanged' % len(locs))
        early.append((f, refs(x.st, r, {}) if name not in ('fit',) else {}))
    col.functions |= x.I.seen_functions


def main(tier):
    return run('C08', analyse, configs(tier), RULES,
               'Escape and effect analysis on the abstract heap: every array, list and dict that is passed in carries its '
               'origin through views, slices, transposes and aliases, and every write is an event on a location; the '
               'locations of returned values are compared before and after each later call.', tier,
               need=('caller', 'results'))
