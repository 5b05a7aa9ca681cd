"""C18: FurthestSum returns distinct, admissible indices."""
import ast
from collections import Counter
from ..scen import *
from ..report import run
from ..harness import program
from ..finite import Vec, Mat, Fn, explore, total, negated
from ..finite import TOP, number, Form, top, form
import random

RULES = {
    'returns': 'a request with enough admissible samples is answered',
    'number': 'exactly n_components indices are returned',
    'distinct': 'the returned indices are pairwise distinct',
    'range': 'the returned values are indices of samples',
    'excluded': 'no excluded index is returned',
    'furthest': 'the index selected last has the largest sum of dissimilarities to the other selected ones among all candidates',
    'pool': 'the indices not selected are, each once, in the pool of candidates when the function returns',
}

CASES = [  # n, components, start, excluded, extra steps
    (3, 1, 0, None, 0), (3, 2, 1, None, 1), (3, 3, 2, None, 1), (4, 2, 3, None, 2), (4, 3, 0, None, 1), (4, 3, 1, None, 3),
    (4, 4, 2, None, 2), (4, 2, 0, [3], 2), (4, 2, 3, [0, 1], 3), (4, 3, 1, [2], 2), (4, 1, 2, [0], 3), (4, 1, 1, None, 2),
    (5, 2, 0, [2, 4], 3), (5, 2, 4, [1], 3), (5, 3, 2, [0], 4), (5, 3, 1, None, 2), (5, 3, 0, [4, 1], 4), (4, 3, 0, [], 4),
    (4, 2, 1, None, 3), (4, 3, 2, None, 5), (3, 0, 0, None, 1), (4, 2, 1, ('array', [0]), 2), (4, 2, 2, [1], 0), (5, 4, 3, [0], 5), (5, 2, 2, [3, 0], 5),
]
MORE = [(5, 3, 4, None, 4), (5, 4, 0, None, 3), (5, 5, 1, None, 5), (6, 3, 2, [0, 5], 4), (6, 4, 5, [1], 3), (6, 2, 0, [1, 2, 3], 6),
        (5, 4, 2, [4], 7), (5, 1, 0, [4], 7)]


def configs(tier):
    return [C('reor.furthest_sum', n=n, components=k, start=s_, exclude=repr(e), extra=x_)
            for n, k, s_, e, x_ in CASES + (MORE if tier == 'thorough' else [])]


def analyse(conf, col):
    P = program()
    tree = P.trees.get('reor.furthest_sum')
    if tree is None or not any(isinstance(q, ast.FunctionDef) and q.name == 'furthest_sum' for q in tree.body):
        return col.unk('number', 'furthest_sum', 'the function was not found')
    n, K, start, ex = conf['n'], conf['components'], conf['start'], ast.literal_eval(conf['exclude'])
    extra = conf['extra']
    out = set(ex[1] if isinstance(ex, tuple) else ex or ())

    def mkargs(I):
        e = Vec(ex[1]) if isinstance(ex, tuple) else None if ex is None else I.mklist(ex)
        return [Mat(n, n, list(range(n)), list(range(n))), K, start], dict(exclude=e, extra_steps=extra)
    f = 'furthest_sum'
    tally = Counter()
    first = {}
    for full in ((True, False) if n <= 4 else (False,)):
        tally.clear()
        first.clear()
        for outcome, v, I in explore(tree, 'furthest_sum', mkargs, full=full):
            tally[outcome] += 1
            if I is not None:
                col.functions.update('reor.furthest_sum.%s' % q for q in I.glob.v if isinstance(I.glob.v[q], Fn))
            if outcome == 'unknown':
                first.setdefault('unknown', v)
            if outcome == 'raise':
                first.setdefault('raise', (I.branched, '%s at %s' % (v.name, ast.unparse(v.node)[:80] if v.node is not None else '?')))
            if outcome == 'return':
                judge(first, tally, v, I, n, K, start, out, extra)
        if not tally['limit']:
            break
    what = 'n_samples = %d, n_components = %d, start %d, excluded %s, %d extra steps: %d orders of the dissimilarities' % (
        n, K, start, ex, extra, tally['return'])
    if 'raise' in first:
        (col.unk if first['raise'][0] else col.bad)('returns', f, '%s: raises %s' % (what, first['raise'][1]))
    elif tally['unknown'] or tally['limit'] or not tally['return']:
        col.unk('returns', f, what)
    else:
        col.ok('returns', f, what)
    for r in RULES:
        if r == 'returns':
            continue
        if ('bad', r) in first:
            col.bad(r, f, '%s: %s' % (what, first[('bad', r)]))
        elif tally['unknown'] or ('unk', r) in first or not tally['return']:
            col.unk(r, f, '%s; %s' % (what, first.get(('unk', r)) or first.get('unknown') or 'raises'))
        elif tally['limit']:
            col.unk(r, f, what + '; not all orders were followed')
        else:
            col.ok(r, f, what)


def implied(facts, a, b):
    """Do the facts (x >= y) lead from a to b?"""
    facts = facts + [(negated(q), negated(p)) for p, q in facts]
    seen, todo = {a.key}, [a]
    while todo:
        x = todo.pop()
        if x.key == b.key:
            return True
        for p, q in facts:
            if p.key == x.key and q.key not in seen:
                seen.add(q.key)
                todo.append(q)
    return False


def witness(facts, a, b, tries=3000):
    """Dissimilarities with all the facts and a < b."""
    r = random.Random(1)
    letters = sorted({k for f in facts for q in f for k in q.d if k} | {k for q in (a, b) for k in q.d if k})
    for _ in range(tries):
        m = {k: r.randint(1, 20) for k in letters}
        m[None] = 1
        val = lambda q: sum(c * m[k] for k, c in q.d.items())
        if val(a) < val(b) and all(val(x) >= val(y) for x, y in facts):
            return ', '.join('d%d%d = %d' % (k + (m[k],)) for k in letters)


def furthest(first, I, items, n, K, start, out, extra):
    j = K - 1 if extra <= 0 or K == 1 and not extra else (extra - 1) % K
    if K == 1 and extra <= 0:
        return
    last = items[j]
    others = [q for i, q in enumerate(items) if i != j]
    dist = lambda c: total([Form({(min(c, s_), max(c, s_)): 1}) for s_ in others]) if others else form(0)
    mine = dist(last)
    for c in set(range(n)) - out - set(items):
        h = dist(c)
        if h.key == mine.key or implied(I.facts, mine, h):
            continue
        w = witness(I.facts, mine, h)
        if w and not I.loose:
            first.setdefault(('bad', 'furthest'), 'returns %s, %d entered last, but for %s sample %d is further' % (items, last, w, c))
        else:
            first.setdefault(('unk', 'furthest'), 'it is not shown that %d is no further than %d in %s' % (c, last, items))
        return


def judge(first, tally, v, I, n, K, start, out, extra):
    k = lambda r: ('unk' if I.branched else 'bad', r)
    if not isinstance(v, (Vec, list, tuple)):
        first.setdefault(('unk', 'number'), 'the result is %r' % (v,))
        for r in RULES:
            first.setdefault(('unk', r), 'the result is not understood')
        return
    items = list(v.items if isinstance(v, Vec) else v)
    if any(top(q) for q in items):
        for r in RULES:
            first.setdefault(('unk', r), 'the result is computed from dissimilarities')
        return
    if len(items) != K:
        first.setdefault(k('number'), 'returns %s' % items)
    if len(set(items)) != len(items):
        first.setdefault(k('distinct'), 'returns %s' % items)
    if any(not isinstance(q, int) or not 0 <= q < n for q in items):
        first.setdefault(k('range'), 'returns %s' % items)
    if any(q in out for q in items):
        first.setdefault(k('excluded'), 'returns %s' % items)
    elif K and len(set(items)) == len(items) == K:
        furthest(first, I, items, n, K, start, out, extra)
    left = set(range(n)) - out - set(items)
    pools = [o for o in I.objects if o and all(isinstance(q, (list, tuple)) and len(q) == 2 and isinstance(q[0], int) and
                                                (top(q[1]) or number(q[1])) for q in o)]
    if K == 0:
        return
    if not pools and left:
        first.setdefault(('unk', 'pool'), 'no list of candidates with their sums found')
    elif len(pools) > 1:
        first.setdefault(('unk', 'pool'), 'several lists of candidates')
    elif pools or left:
        ids = sorted(q[0] for q in pools[0])
        if ids != sorted(left):
            first.setdefault(k('pool'), 'the selection is %s and the pool holds %s' % (items, ids))


def main(tier):
    return run('C18', analyse, configs(tier), RULES,
               'Abstract interpretation of furthest_sum over small universes of samples: every dissimilarity, and every number '
               'computed from one, is a single abstract value, so that each sort, comparison and maximum can come out every way. '
               'All ways are followed; in every returned state the selection and the pool must share out the admissible indices.',
               tier, need=('number', 'distinct', 'excluded'),
               assumptions=['up to 5 samples (6 in the thorough tier)'])
