"""C24: the simplex projections return the nearest point."""
import ast
import random
from collections import Counter
from fractions import Fraction
from ..scen import *
from ..report import run
from ..harness import program
from ..finite import Vec, Fn, Form, Pos, Grid, explore, total, form, top, number, reaches

MOD = 'reor.simplex_projection'
RULES = {
    'answers': 'every finite vector is projected',
    'nearest': 'the result satisfies the optimality conditions of the nearest point: x - t where x > t, 0 elsewhere, with unit sum',
    'each': 'every row (column) is replaced by the nearest point to it',
    'aside': 'the argument of a projection without out is not changed',
}


def configs(tier):
    big = tier == 'thorough'
    return ([C(MOD, function='simplex_project_vector', n=n, out=o) for n in range(1, 7 if big else 6) for o in (False, True)] +
            [C(MOD, function='simplex_project_' + f, shape=s_) for f in ('rows', 'columns')
             for s_ in ('1x1', '1x3', '3x1', '2x2', '2x3', '3x2') + (('3x3',) if big else ())])


def letters(key, n):
    return [Form({key + (i,): 1}) for i in range(n)]


def nearest(x):
    s_ = sorted(x, reverse=True)
    t = max((sum(s_[:j]) - 1) / j for j in range(1, len(s_) + 1))
    return [max(q - t, Fraction(0)) for q in x]


def optimal(xs, rs, I):
    w = shown(xs, rs, I)
    if w and not w[0] and not I.loose and len(rs) == len(xs) and all(isinstance(r, (Pos, Form)) or number(r) for r in rs):
        bad = witness(xs, rs, I.facts, I.derive)
        if bad:
            return True, bad
    return w


def shown(xs, rs, I):
    """None if the optimality conditions follow from the facts, else (certain, text)."""
    n = len(xs)
    facts = I.facts
    if len(rs) != n:
        return not I.branched, 'the result has %d entries' % len(rs)
    why = 'the entries are %s' % (rs,)
    if all(isinstance(r, (Pos, Form)) or number(r) for r in rs):
        t, inner = None, []
        for i, (x, r) in enumerate(zip(xs, rs)):
            if isinstance(r, (Pos, Form)):
                d = x.plus(r.f if isinstance(r, Pos) else r, -1)
                if t is not None and t.key != d.key:
                    return False, 'different thresholds'
                t = d
                inner.append(i)
        if t is None:
            return (True, why) if n and not I.branched else (False, why)
        for A in sets(inner):
            if t.plus(total([xs[i] for i in A] + [-1]), -Fraction(1, len(A))).d:
                continue
            if all(isinstance(rs[i], Form) or reaches(facts, xs[i], t) for i in A) and \
                    all(reaches(facts, t, xs[i]) for i in range(n) if i not in A):
                if all(isinstance(rs[i], Pos) or i in A for i in inner):
                    return None
        return False, 'threshold %s: %s is not shown' % (t, 'its optimality')
    return False, why


def sets(xs):
    for m in range(1, 1 << len(xs)):
        yield [x for k, x in enumerate(xs) if m >> k & 1]


def witness(xs, rs, facts, defs, tries=1500):
    r = random.Random(7)
    forms = list(xs) + [q for f in facts for q in f] + [q.f if isinstance(q, Pos) else q for q in rs]
    names = set()
    while forms:
        q = forms.pop()
        if isinstance(q, Form):
            for k in q.d:
                if k and k not in names:
                    names.add(k)
                    forms += [p for p in (defs or {}).get(k, ())[1:]]
    base = sorted((q for q in names if q not in (defs or {})), key=str)
    for k in range(tries):
        m = {q: Fraction(r.randint(-8, 8), (1, 4, 16)[k % 3]) for q in base}
        m[None] = Fraction(1)

        def letter(a):
            if a not in m:
                op, p, q = defs[a]
                m[a] = max(val(p), Fraction(0)) if op == 'pos' else val(p) * val(q) if op == '*' else val(p) / val(q)
            return m[a]
        val = lambda q: sum(c * letter(a) for a, c in q.d.items()) if isinstance(q, Form) else Fraction(q)
        try:
            if any(val(a) < val(b) for a, b in facts):
                continue
            got = [max(val(q.f), Fraction(0)) if isinstance(q, Pos) else val(q) for q in rs]
        except ZeroDivisionError:
            continue
        x = [val(q) for q in xs]
        if got != nearest(x):
            return 'x = [%s] gives [%s]' % (', '.join(map(str, x)), ', '.join(map(str, got)))


def analyse(conf, col):
    P = program()
    tree = P.trees.get(MOD)
    f = conf['function']
    if tree is None or not any(isinstance(q, ast.FunctionDef) and q.name == f for q in tree.body):
        return col.unk('answers', f, 'the function was not found')
    vector = f.endswith('vector')
    seen = {}
    tally = Counter()
    if vector:
        n = conf['n']
        xs = letters(('x',), n)

        def mkargs(I):
            I.derive = {}
            I.arg = Vec(xs)
            I.out = Vec([Form({('old', i): 1}) for i in range(n)]) if conf['out'] else None
            return [I.arg], dict(out=I.out) if conf['out'] else {}
        rules = ['answers', 'nearest', 'aside']
    else:
        n, m = map(int, conf['shape'].split('x'))
        rows = [letters(('x', i), m) for i in range(n)]

        def mkargs(I):
            I.derive = {}
            I.arg = Grid(rows)
            return [I.arg], {}
        rules = ['answers', 'each']

    def put(rule, certain, text):
        seen.setdefault((certain, rule), text)
    for outcome, v, I in explore(tree, f, mkargs, full=True, limit=40000, seconds=300 if conf.get('n') == 6 or conf.get('shape') == '3x3' else 60):
        tally[outcome] += 1
        if I is not None:
            col.functions.update('%s.%s' % (MOD, q) for q in I.glob.v if isinstance(I.glob.v[q], Fn))
        if outcome == 'raise':
            for r in rules:
                put(r, not I.branched and r == 'answers', '%s at %s' % (v.name, ast.unparse(v.node)[:80] if v.node is not None else '?'))
        elif outcome in ('unknown', 'limit'):
            for r in rules:
                put(r, False, v or 'too many cases')
        elif vector:
            if not isinstance(v, Vec):
                put('nearest', False, 'the result is %r' % (v,))
                continue
            for got in [v.items] + ([I.out.items] if conf['out'] else []):
                w = optimal(xs, got, I)
                if w:
                    put('nearest', *w)
            if not conf['out'] and [getattr(q, 'key', None) for q in I.arg.items] != [q.key for q in xs]:
                put('aside', not I.branched, 'the argument becomes %s' % (I.arg.items,))
        else:
            got = I.arg.rows
            pairs = zip(rows, got) if f.endswith('rows') else zip(zip(*rows), zip(*got))
            for a, b in pairs:
                w = optimal(list(a), list(b), I)
                if w:
                    put('each', *w)
    what = '%s, %s: %d cases' % (f, 'vectors of length %d%s' % (conf['n'], ' with out' if conf['out'] else '') if vector
                                 else 'matrices of shape ' + conf['shape'], sum(tally.values()))
    for r in rules:
        if (True, r) in seen:
            col.bad(r, f, '%s: %s' % (what, seen[(True, r)]))
        elif (False, r) in seen:
            col.unk(r, f, '%s: %s' % (what, seen[(False, r)]))
        else:
            col.ok(r, f, what)


def main(tier):
    return run('C24', analyse, configs(tier), RULES,
               'Abstract interpretation of the projection helpers: entries are letters, everything computed from them is a formal '
               'linear form; every order of the sort and every outcome of a comparison is followed and recorded as a fact.  In each '
               'case the facts must imply the optimality conditions of the nearest point for the resulting threshold, by transitivity and '
               'positive scaling of the facts.', tier, need=('nearest', 'each'),
               assumptions=['vectors of length up to 5 (6 in the thorough tier), matrices up to 2 x 3 and 3 x 2; real arithmetic'])
