"""Abstract interpretation of index bookkeeping over a small universe.

The abstract domain: integers, booleans and references are kept, every dissimilarity and everything computed from one is the
single value TOP ("some finite number").  A comparison of TOP, and any order of keys that are TOP, can come out every way;
all ways are followed, so that the collected states cover every matrix of the given size, ties included.  Nothing of the
package is imported or run: the functions are read from the syntax trees.  A construct outside the supported subset makes
the answer unknown (class Unknown)."""
import ast
import itertools
import time
from fractions import Fraction


class Unknown(Exception):
    """Not in the supported subset."""


class Raised(Exception):
    """The analysed function raises."""

    def __init__(self, name, node):
        self.name, self.node = name, node


class Top:
    def __repr__(self):
        return '?'


TOP = Top()
NINF, PINF = float('-inf'), float('inf')


def top(v):
    return isinstance(v, Top)


class Form(Top):
    """A sum of dissimilarities: letters (i, j), i <= j, with coefficients, and a constant under None."""

    def __init__(self, d):
        self.d = {k: Fraction(c) if isinstance(c, float) else c for k, c in d.items() if c}
        self.key = frozenset(self.d.items())

    def plus(self, o, c=1):
        d = dict(self.d)
        for k, v in (o.d if isinstance(o, Form) else {None: o}).items():
            d[k] = d.get(k, 0) + c * v
        return Form(d)

    def __repr__(self):
        return ' + '.join('%s%s' % ('' if c == 1 else '%s ' % c, ''.join(map(str, k)) if k else 'one') for k, c in sorted(
            self.d.items(), key=str)) or '0'


class Cond(Top):
    """Outcome of a comparison a op b of sums; op is one of < <= > >=."""

    def __init__(self, a, op, b):
        self.a, self.op, self.b = a, op, b

    def fact(self, yes):
        a, b = self.a, self.b
        ge = self.op in ('>', '>=')
        return (a, b) if ge == yes else (b, a)


def form(v):
    return v if isinstance(v, Form) else Form({None: v}) if number(v) else None


class Pos(Top):
    """max(form, 0)."""

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return 'max(%r, 0)' % self.f


class Vec:
    """A one-dimensional array."""
    part = False                      # a slice of another one: may be read only

    def __init__(self, items):
        self.items = list(items)


class Shared(list):
    """Items of a view: stores go through to the grid."""

    def __init__(self, grid, places):
        list.__init__(self, [grid.rows[i][j] for i, j in places])
        self.grid, self.places = grid, places

    def __setitem__(self, k, v):
        list.__setitem__(self, k, v)
        for (i, j), w in zip(self.places, self):
            self.grid.rows[i][j] = w


class Turned:
    def __init__(self, g):
        self.g = g

    def __len__(self):
        return self.g.shape()[1]

    def __getitem__(self, i):
        return TurnedRow(self.g, i)


class TurnedRow:
    def __init__(self, g, i):
        self.g, self.i = g, i

    def __len__(self):
        return self.g.shape()[0]

    def __getitem__(self, j):
        return self.g.rows[j][self.i]

    def __setitem__(self, j, v):
        self.g.rows[j][self.i] = v


class Grid:
    """A two-dimensional array that can be changed through its views."""

    def __init__(self, rows):
        self.rows = [list(r) for r in rows]

    def shape(self):
        return (len(self.rows), len(self.rows[0]) if self.rows else 0)

    def view(self, places):
        v = Vec([])
        v.items = Shared(self, places)
        return v


class Mat:
    """The (symmetric) dissimilarity matrix, or a part of it; rows and columns are None for anything else."""

    def __init__(self, n, m=None, rows=None, cols=None):
        self.n, self.m = n, n if m is None else m
        self.rows, self.cols = rows, cols

    def at(self, i, j):
        if self.rows is None or self.cols is None:
            return TOP
        a, b = self.rows[i], self.cols[j]
        return Form({(min(a, b), max(a, b)): 1})


class Fn:
    def __init__(self, node, env, name):
        self.node, self.env, self.name = node, env, name


class Ext:
    def __init__(self, name):
        self.name = name


class Getter:
    def __init__(self, i):
        self.i = i


class Meth:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class Env:
    def __init__(self, parent=None):
        self.v, self.parent, self.outer = {}, parent, set()

    def get(self, k):
        e = self
        while e is not None:
            if k in e.v:
                return e.v[k]
            e = e.parent
        raise KeyError(k)


def number(v):
    return isinstance(v, (int, float, Fraction)) and not isinstance(v, bool) and v not in (NINF, PINF)


def hastop(v):
    if isinstance(v, Top):
        return True
    if isinstance(v, (list, tuple)):
        return any(hastop(x) for x in v)
    if isinstance(v, Vec):
        return hastop(v.items)
    return isinstance(v, Mat)


class Finite:
    """Interpreter; ``choices`` is the prefix of the path to follow, extended with first choices."""

    def __init__(self, tree, choices, limit=40000, full=True):
        self.tree, self.choices, self.at, self.arity = tree, list(choices), 0, []
        self.steps, self.limit, self.full = 0, limit, full
        self.derive = None
        self.loose = False                # was a way chosen whose condition is not known?
        self.facts = []                   # pairs of sums (a, b) with a >= b
        self.objects = []                 # every list made
        self.glob = Env()
        self.branched = False             # was a way chosen at a comparison of dissimilarities?
        self.stack = []
        for s in tree.body:
            if isinstance(s, ast.FunctionDef):
                self.glob.v[s.name] = Fn(s, self.glob, s.name)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.glob.v[a.asname or a.name.split('.')[0]] = Ext(a.name)
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.glob.v[a.asname or a.name] = Ext('%s.%s' % (s.module, a.name))
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                try:
                    self.glob.v[s.targets[0].id] = ast.literal_eval(s.value)
                except ValueError:
                    pass

    # ------------------------------------------------------------- choices

    def choose(self, n):
        if n <= 1:
            return 0
        if self.at == len(self.choices):
            self.choices.append(0)
        if self.at == len(self.arity):
            self.arity.append(n)
        c = self.choices[self.at]
        self.at += 1
        return c

    def mklist(self, items):
        v = list(items)
        self.objects.append(v)
        return v

    def truth(self, v):
        if top(v):
            self.branched = True
            yes = self.choose(2) == 0
            if isinstance(v, Cond):
                self.facts.append(v.fact(yes))
            else:
                self.loose = True
            return yes
        if isinstance(v, (Vec, Mat)):
            raise Unknown('truth of an array')
        return bool(v)

    def arrange(self, items, keys, reverse=False):
        """All orders of items that are possible for the keys."""
        if not hastop(keys):
            ks = sorted(range(len(items)), key=lambda i: keys[i], reverse=reverse)
            return [items[i] for i in ks]
        if any(isinstance(k, (tuple, list)) and hastop(k) and not top(k[0]) for k in keys):
            raise Unknown('order of pairs')
        if not all(top(k) or hastop(k) for k in keys):
            # finite numbers lie between the infinities, in any order with dissimilarities
            old, keys = keys, [TOP if number(k) else k for k in keys]
            lo = [i for i, k in enumerate(keys) if k == NINF]
            hi = [i for i, k in enumerate(keys) if k == PINF]
            mid = [i for i in range(len(items)) if i not in lo and i not in hi]
            if any(not hastop(keys[i]) for i in mid):
                raise Unknown('numbers compared with dissimilarities')
            mid = self.perm(mid)
            self.ordered([old[i] for i in mid])
            order = lo + mid + hi
            if reverse:
                order = order[::-1]
            return [items[i] for i in order]
        order = self.perm(list(range(len(items))))
        self.ordered([keys[i] for i in order])
        return [items[i] for i in (order[::-1] if reverse else order)]

    def ordered(self, keys):
        """Facts of an order, smallest first."""
        if not self.full and len(keys) > 1:
            self.loose = True
        for i, k in enumerate(keys[:-1]):
            j = i + 1 if self.full else len(keys) - 1
            a, b = form(firstof(keys[j])), form(firstof(k))
            if a is not None and b is not None:
                self.facts.append((a, b))
            else:
                self.loose = True

    def larger(self, a, b):
        if number(b) and b == 0 and isinstance(a, Form):
            return Pos(a)
        if number(a) and a == 0 and isinstance(b, Form):
            return Pos(b)
        if number(a) and number(b):
            return max(a, b)
        if isinstance(a, Pos) and number(b) and b <= 0:
            return a
        raise Unknown('maximum')

    def perm(self, xs):
        out = []
        xs = list(xs)
        if self.full:
            while xs:
                out.insert(0, xs.pop(self.choose(len(xs))))
            return out
        # first and last place are chosen, the others keep their order
        if xs:
            last = xs.pop(self.choose(len(xs)))
            return xs + [last]
        return out

    def extreme(self, keys, largest):
        """Index of a largest (smallest) key."""
        if not keys:
            raise Raised('ValueError', None)
        if not hastop(keys):
            return (max if largest else min)(range(len(keys)), key=lambda i: keys[i])
        if any(isinstance(k, (tuple, list)) and hastop(k) and not top(k[0]) for k in keys):
            raise Unknown('order of pairs')
        old, keys = keys, [TOP if number(k) else k for k in keys]
        bad = NINF if largest else PINF
        ok = [i for i, k in enumerate(keys) if hastop(k)]
        if any(not hastop(k) and k != bad for k in keys):
            if any(k == -bad for k in keys if not hastop(k)):
                return next(i for i, k in enumerate(keys) if not hastop(k) and k == -bad)
            raise Unknown('numbers compared with dissimilarities')
        best = ok[self.choose(len(ok))]
        for i in ok:
            a, b = form(firstof(old[best])), form(firstof(old[i]))
            if i != best and a is not None and b is not None:
                self.facts.append((a, b) if largest else (b, a))
        return best

    # ------------------------------------------------------------- functions

    def call_fn(self, f, args, kw):
        if len(self.stack) > 30:
            raise Unknown('recursion')
        a = f.node.args
        if a.vararg or a.kwarg or a.posonlyargs:
            raise Unknown('argument lists')
        names = [x.arg for x in a.args]
        env = Env(f.env)
        if len(args) > len(names):
            raise Raised('TypeError', f.node)
        env.v.update(zip(names, args))
        for k, v in kw.items():
            if k not in names + [x.arg for x in a.kwonlyargs] or k in names[:len(args)]:
                raise Raised('TypeError', f.node)
            env.v[k] = v
        for n_, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [
                (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if n_ not in env.v:
                env.v[n_] = self.ev(d, f.env)
        if any(n_ not in env.v for n_ in names):
            raise Raised('TypeError', f.node)
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, env)
        self.stack.append(f.name)
        try:
            self.block(f.node.body, env)
        except _Return as r:
            return r.v
        finally:
            self.stack.pop()
        return None

    # ------------------------------------------------------------- statements

    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > self.limit:
            raise Unknown('too many steps')
        t = type(s)
        if t is ast.Expr:
            self.ev(s.value, env)
        elif t is ast.Assign:
            v = self.ev(s.value, env)
            for x in s.targets:
                self.assign(x, v, env)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
        elif t is ast.AugAssign:
            old = self.ev(ast.copy_location(loaded(s.target), s.target), env)
            v = self.ev(s.value, env)
            if isinstance(old, list) and isinstance(s.op, ast.Add):
                old.extend(self.iterate(v))
            elif isinstance(old, Vec):
                if old.part:
                    raise Unknown('store into a part')
                old.items[:] = self.binop(s.op, old, v, s).items
            else:
                self.assign(s.target, self.binop(s.op, old, v, s), env)
        elif t is ast.If:
            self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)
        elif t in (ast.For, ast.While):
            self.loop(s, env)
        elif t is ast.Return:
            raise _Return(None if s.value is None else self.ev(s.value, env))
        elif t is ast.FunctionDef:
            env.v[s.name] = Fn(s, env, s.name)
        elif t is ast.Raise:
            n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            raise Raised(n.id if isinstance(n, ast.Name) else 'error', s)
        elif t is ast.Break:
            raise _Break()
        elif t is ast.Continue:
            raise _Continue()
        elif t is ast.Pass:
            pass
        elif t is ast.Nonlocal or t is ast.Global:
            env.outer |= set(s.names)
        elif t is ast.Delete:
            for x in s.targets:
                if not isinstance(x, ast.Subscript):
                    if isinstance(x, ast.Name):
                        env.v.pop(x.id, None)
                        continue
                    raise Unknown('del')
                o, i = self.ev(x.value, env), self.ev(x.slice, env)
                if isinstance(o, (list, dict)):
                    try:
                        del o[i]
                    except (IndexError, KeyError):
                        raise Raised('IndexError', s)
                else:
                    raise Unknown('del')
        elif t is ast.Assert:
            if not self.truth(self.ev(s.test, env)):
                raise Raised('AssertionError', s)
        else:
            raise Unknown(t.__name__)

    def loop(self, s, env):
        it = None
        if isinstance(s, ast.For):
            src = self.ev(s.iter, env)
            it = live(src) if isinstance(src, list) else iter(self.iterate(src))
        n = 0
        try:
            while True:
                n += 1
                if n > 400:
                    raise Unknown('long loop')
                if it is None:
                    if not self.truth(self.ev(s.test, env)):
                        break
                else:
                    try:
                        v = next(it)
                    except StopIteration:
                        break
                    self.assign(s.target, v, env)
                try:
                    self.block(s.body, env)
                except _Continue:
                    pass
        except _Break:
            return
        self.block(s.orelse, env)

    def assign(self, x, v, env):
        if isinstance(x, ast.Name):
            if x.id in env.outer:
                e = env.parent
                while e is not None and x.id not in e.v:
                    e = e.parent
                (e or env).v[x.id] = v
            else:
                env.v[x.id] = v
        elif isinstance(x, (ast.Tuple, ast.List)):
            vs = list(self.iterate(v))
            if any(isinstance(y, ast.Starred) for y in x.elts):
                raise Unknown('starred')
            if len(vs) != len(x.elts):
                raise Raised('ValueError', x)
            for y, w in zip(x.elts, vs):
                self.assign(y, w, env)
        elif isinstance(x, ast.Subscript):
            o = self.ev(x.value, env)
            i = self.ev(x.slice, env)
            self.setitem(o, i, v, x)
        else:
            raise Unknown('assignment')

    def setitem(self, o, i, v, node):
        if isinstance(o, Grid):
            r, c = self.grid_places(o, i, node)
            if isinstance(r, list) and isinstance(c, list):
                raise Unknown('store')
            ps = [(r, q) for q in c] if isinstance(c, list) else [(q, c) for q in r] if isinstance(r, list) else [(r, c)]
            vs = list(self.iterate(v)) if isinstance(v, (Vec, list, tuple)) else [v] * len(ps)
            if len(vs) != len(ps):
                raise Raised('ValueError', node)
            for (a, b), w in zip(ps, vs):
                o.rows[a][b] = w
            return
        if isinstance(o, Vec) and o.part:
            raise Unknown('store into a part')
        tgt = o.items if isinstance(o, Vec) else o
        if isinstance(o, dict):
            if hastop(i):
                raise Unknown('index')
            o[i] = v
            return
        if not isinstance(tgt, list):
            raise Unknown('store')
        if isinstance(i, slice):
            ks = list(range(*i.indices(len(tgt))))
            if isinstance(o, Vec):
                vs = list(self.iterate(v)) if isinstance(v, (Vec, list, tuple)) else [v] * len(ks)
                if len(vs) != len(ks):
                    raise Raised('ValueError', node)
                for k, w in zip(ks, vs):
                    tgt[k] = w
            else:
                tgt[i] = list(self.iterate(v))
            return
        if isinstance(o, Vec) and isinstance(i, (Vec, list)):
            its = i.items if isinstance(i, Vec) else i
            if hastop(its):
                raise Unknown('index')
            ks = [k for k, b in enumerate(its) if b] if its and all(isinstance(b, bool) for b in its) else its
            vs = list(self.iterate(v)) if isinstance(v, (Vec, list, tuple)) else [v] * len(ks)
            for k, w in zip(ks, vs):
                self.setitem(o, k, w, node)
            return
        if hastop(i) or not isinstance(i, int):
            raise Unknown('index')
        if not -len(tgt) <= i < len(tgt):
            raise Raised('IndexError', node)
        if isinstance(v, (Vec, Mat)) and isinstance(o, Vec):
            raise Unknown('store')
        tgt[i] = v

    # ------------------------------------------------------------- expressions

    def iterate(self, v):
        if isinstance(v, (list, tuple, range, dict)):
            return list(v)
        if isinstance(v, (set, frozenset)):
            if all(isinstance(q, int) for q in v):
                return sorted(v)
            raise Unknown('order of a set')
        if isinstance(v, Vec):
            return list(v.items)
        if isinstance(v, Grid):
            n, m = v.shape()
            return [v.view([(i, j) for j in range(m)]) for i in range(n)]
        if isinstance(v, Mat):
            return [Vec(v.at(i, j) for j in range(v.m)) for i in range(v.n)]
        raise Unknown('iteration')

    def ev(self, e, env):
        t = type(e)
        if t is ast.Constant:
            return e.value
        if t is ast.Name:
            try:
                return env.get(e.id)
            except KeyError:
                return Ext('builtins.' + e.id)
        if t is ast.Attribute:
            o = self.ev(e.value, env)
            return self.attr(o, e.attr)
        if t is ast.Subscript:
            return self.getitem(self.ev(e.value, env), self.ev(e.slice, env), e)
        if t is ast.Slice:
            return slice(*(None if q is None else self.ev(q, env) for q in (e.lower, e.upper, e.step)))
        if t is ast.Tuple:
            return tuple(self.ev(q, env) for q in e.elts)
        if t is ast.List:
            return self.mklist(self.ev(q, env) for q in e.elts)
        if t is ast.Set:
            return {self.ev(q, env) for q in e.elts}
        if t is ast.Dict:
            return {self.ev(k, env): self.ev(v, env) for k, v in zip(e.keys, e.values)}
        if t is ast.Call:
            return self.call(e, env)
        if t is ast.BinOp:
            return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env), e)
        if t is ast.UnaryOp:
            v = self.ev(e.operand, env)
            if isinstance(e.op, ast.Not):
                return not self.truth(v)
            if isinstance(v, Vec):
                if isinstance(e.op, ast.Invert) and all(isinstance(q, bool) for q in v.items):
                    return Vec(not q for q in v.items)
                return Vec(negated(q) if top(q) else -q for q in v.items)
            if top(v):
                return negated(v)
            return -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else ~v
        if t is ast.Compare:
            a = self.ev(e.left, env)
            out = True
            for op, c in zip(e.ops, e.comparators):
                b = self.ev(c, env)
                out = self.compare(op, a, b)
                if len(e.ops) > 1:
                    if not self.truth(out):
                        return False
                    out = True
                a = b
            return out
        if t is ast.BoolOp:
            v = None
            for q in e.values:
                v = self.ev(q, env)
                b = self.truth(v)
                if isinstance(e.op, ast.And) and not b:
                    return v if not top(v) else False
                if isinstance(e.op, ast.Or) and b:
                    return v if not top(v) else True
            return v if not top(v) else isinstance(e.op, ast.And)
        if t is ast.IfExp:
            return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)
        if t is ast.Lambda:
            return Fn(e, env, 'lambda')
        if t in (ast.ListComp, ast.GeneratorExp, ast.SetComp):
            out = []
            self.comp(e.generators, Env(env), lambda en: out.append(self.ev(e.elt, en)))
            return set(out) if t is ast.SetComp else self.mklist(out)
        if t is ast.DictComp:
            d = {}
            self.comp(e.generators, Env(env), lambda en: d.__setitem__(self.ev(e.key, en), self.ev(e.value, en)))
            return d
        if t is ast.JoinedStr:
            return 'text'
        raise Unknown(t.__name__)

    def comp(self, gens, env, f):
        if not gens:
            return f(env)
        g = gens[0]
        for v in self.iterate(self.ev(g.iter, env)):
            self.assign(g.target, v, env)
            if all(self.truth(self.ev(c, env)) for c in g.ifs):
                self.comp(gens[1:], env, f)

    def attr(self, o, name):
        if isinstance(o, Mat):
            if name == 'shape':
                return (o.n, o.m)
            if name == 'T':
                return Mat(o.m, o.n, o.cols, o.rows)
            if name == 'ndim':
                return 2
        if isinstance(o, Grid):
            if name == 'shape':
                return o.shape()
            if name == 'ndim':
                return 2
            if name == 'size':
                return o.shape()[0] * o.shape()[1]
            if name == 'T':
                g = Grid([])
                g.rows = Turned(o)
                return g
        if isinstance(o, Vec):
            if name in ('size', 'shape'):
                return len(o.items) if name == 'size' else (len(o.items),)
            if name == 'ndim':
                return 1
            if name == 'dtype':
                return Ext('numpy.float64')
        if isinstance(o, Ext):
            return Ext(o.name + '.' + name)
        return Meth(o, name)

    def grid_places(self, o, i, node):
        n, m = o.shape()
        if not isinstance(i, tuple):
            i = (i, slice(None))
        if len(i) == 2 and i[0] is Ellipsis:
            i = (slice(None), i[1])
        if len(i) == 2 and i[1] is Ellipsis:
            i = (i[0], slice(None))
        if len(i) != 2 or hastop(i):
            raise Unknown('index')
        ax = []
        for q, size in zip(i, (n, m)):
            if isinstance(q, int) and not isinstance(q, bool):
                if not -size <= q < size:
                    raise Raised('IndexError', node)
                ax.append(q % size)
            elif isinstance(q, slice):
                ax.append(list(range(*q.indices(size))))
            else:
                raise Unknown('index')
        return ax

    def getitem(self, o, i, node):
        if isinstance(o, Grid):
            r, c = self.grid_places(o, i, node)
            if isinstance(r, int) and isinstance(c, int):
                return o.rows[r][c]
            if isinstance(r, int):
                return o.view([(r, q) for q in c])
            if isinstance(c, int):
                return o.view([(q, c) for q in r])
            raise Unknown('part of a matrix')
        if isinstance(o, Mat):
            if isinstance(i, tuple) and len(i) == 2:
                for q, m in zip(i, (o.n, o.m)):
                    if isinstance(q, int) and not -m <= q < m:
                        raise Raised('IndexError', node)
                ls = [q for q in i if isinstance(q, (Vec, list))]
                sl = [len(range(*q.indices(m))) for q, m in zip(i, (o.n, o.m)) if isinstance(q, slice)]
                if not ls and not sl:
                    return o.at(*i) if all(isinstance(q, int) for q in i) else TOP
                if len(ls) + len(sl) == 1:
                    f = lambda q: self.places(q, o.n if q is i[0] else o.m) if isinstance(q, (Vec, list, slice)) else None
                    r, c = f(i[0]), f(i[1])
                    if r is None and isinstance(i[0], int):
                        return Vec(o.at(i[0], q) for q in c)
                    if c is None and isinstance(i[1], int):
                        return Vec(o.at(q, i[1]) for q in r)
                    return Vec([TOP] * len(r or c))
                if len(ls) == 1 and len(sl) == 1:
                    r, c = self.places(i[0], o.n), self.places(i[1], o.m)
                    return Mat(len(r), len(c), o.rows and [o.rows[q] for q in r], o.cols and [o.cols[q] for q in c])
                raise Unknown('index')
            if isinstance(i, int):
                if not -o.n <= i < o.n:
                    raise Raised('IndexError', node)
                return Vec(o.at(i, q) for q in range(o.m))
            if isinstance(i, (Vec, list, slice)):
                r = self.places(i, o.n)
                return Mat(len(r), o.m, o.rows and [o.rows[q] for q in r], o.cols)
            raise Unknown('index')
        if isinstance(o, dict):
            if hastop(i):
                raise Unknown('index')
            if i not in o:
                raise Raised('KeyError', node)
            return o[i]
        items = o.items if isinstance(o, Vec) else o
        if not isinstance(items, (list, tuple, range, str)):
            raise Raised('TypeError', node) if items is None or isinstance(items, int) else Unknown('index')
        if isinstance(i, slice):
            if hastop((i.start, i.stop, i.step)):
                raise Unknown('index')
            v = items[i]
            if isinstance(o, Vec):
                w = Vec(v)
                w.part = True
                return w
            return self.mklist(v) if isinstance(v, list) else v
        if isinstance(o, Vec) and isinstance(i, (Vec, list)):
            its = i.items if isinstance(i, Vec) else i
            if hastop(its):
                raise Unknown('index')
            if its and all(isinstance(q, bool) for q in its):
                return Vec(v for v, b in zip(items, its) if b)
            return Vec(self.getitem(o, q, node) for q in its)
        if hastop(i) or not isinstance(i, int):
            raise Unknown('index')
        if not -len(items) <= i < len(items):
            raise Raised('IndexError', node)
        return items[i]

    def places(self, ix, n):
        if isinstance(ix, slice):
            if hastop((ix.start, ix.stop, ix.step)):
                raise Unknown('index')
            return list(range(*ix.indices(n)))
        its = ix.items if isinstance(ix, Vec) else ix
        if hastop(its):
            raise Unknown('index')
        if its and all(isinstance(b, bool) for b in its):
            return [k for k, b in enumerate(its) if b]
        for q in its:
            if not isinstance(q, int):
                raise Unknown('index')
            if not -n <= q < n:
                raise Raised('IndexError', None)
        return [q % n for q in its]

    def derived(self, op, a, b):
        """A quotient, product or clipped entry as a letter of its own, when the caller keeps their definitions."""
        if self.derive is None:
            return TOP

        def linear(q):
            if isinstance(q, Pos):
                k = ('pos', str(sorted(q.f.d.items(), key=str)))
                self.derive[k] = ('pos', q.f, None)
                return Form({k: 1})
            return form(q)
        fa, fb = linear(a), linear(b)
        if fa is None or fb is None:
            return TOP
        if isinstance(op, (ast.Add, ast.Sub)):
            return fa.plus(fb, 1 if isinstance(op, ast.Add) else -1)
        if not isinstance(op, (ast.Mult, ast.Div)):
            return TOP
        nm = '*' if isinstance(op, ast.Mult) else '/'
        if not set(fb.d) - {None} and fb.d:
            return form(0).plus(fa, fb.d[None] if nm == '*' else 1 / Fraction(fb.d[None]))
        k = (nm,) + tuple(str(sorted(q.d.items(), key=str)) for q in (fa, fb))
        self.derive[k] = (nm, fa, fb)
        return Form({k: 1})

    def binop(self, op, a, b, node):
        if isinstance(a, Mat) or isinstance(b, Mat):
            m = a if isinstance(a, Mat) else b
            return Mat(m.n, m.m)
        if isinstance(a, Vec) or isinstance(b, Vec):
            n = len((a if isinstance(a, Vec) else b).items)
            xs = a.items if isinstance(a, Vec) else list(a) if isinstance(a, (list, tuple)) else [a] * n
            ys = b.items if isinstance(b, Vec) else list(b) if isinstance(b, (list, tuple)) else [b] * n
            if len(xs) != len(ys):
                if 1 in (len(xs), len(ys)):
                    m = max(len(xs), len(ys))
                    xs, ys = xs * (m if len(xs) == 1 else 1), ys * (m if len(ys) == 1 else 1)
                else:
                    raise Raised('ValueError', node)
            return Vec(self.binop(op, x, y, node) for x, y in zip(xs, ys))
        if top(a) or top(b):
            if isinstance(op, (ast.Add, ast.Sub)):
                if not top(a) and a in (NINF, PINF):
                    return a
                if not top(b) and b in (NINF, PINF):
                    return b if isinstance(op, ast.Add) else -b
                fa, fb = form(a), form(b)
                if fa is not None and fb is not None:
                    return fa.plus(fb, 1 if isinstance(op, ast.Add) else -1)
            if isinstance(op, ast.Div) and isinstance(a, Form) and number(b) and b != 0:
                return form(0).plus(a, Fraction(1) / Fraction(b))
            if isinstance(op, ast.Mult) and (number(a) and isinstance(b, Form) or number(b) and isinstance(a, Form)):
                return form(0).plus(a if top(a) else b, b if top(a) else a)
            return self.derived(op, a, b)
        if isinstance(op, ast.Div) and isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and b != 0:
            v = Fraction(a) / Fraction(b)
            return int(v) if v.denominator == 1 else v
        f = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Mod: lambda: a % b,
             ast.FloorDiv: lambda: a // b, ast.Div: lambda: a / b, ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b,
             ast.Pow: lambda: a ** b, ast.BitXor: lambda: a ^ b}.get(type(op))
        if f is None:
            raise Unknown('operator')
        if isinstance(a, str):
            return 'text'
        try:
            v = f()
        except ZeroDivisionError:
            raise Raised('ZeroDivisionError', node)
        except TypeError:
            raise Raised('TypeError', node)
        if isinstance(v, list):
            return self.mklist(v)
        return v

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            v = a is b if not isinstance(a, (int, str)) else a == b
            return v if isinstance(op, ast.Is) else not v
        if isinstance(op, (ast.In, ast.NotIn)):
            if hastop(a):
                raise Unknown('membership of a dissimilarity')
            items = [q for q in self.iterate(b) if not top(q)] if not isinstance(b, (dict, set, range)) else b
            v = a in items
            return v if isinstance(op, ast.In) else not v
        if isinstance(a, Vec) or isinstance(b, Vec):
            n = len((a if isinstance(a, Vec) else b).items)
            xs = a.items if isinstance(a, Vec) else [a] * n
            ys = b.items if isinstance(b, Vec) else [b] * n
            if len(xs) != len(ys):
                raise Unknown('shapes')
            return Vec(self.compare(op, x, y) for x, y in zip(xs, ys))
        if top(a) or top(b):
            if a is None or b is None:
                return isinstance(op, ast.NotEq)
            o = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}.get(type(op))
            inf = [q for q in (a, b) if not top(q) and q in (NINF, PINF)]
            if inf and o:
                return (o[0] == '<') == (a is NINF or b is PINF or not top(a) and a == NINF or not top(b) and b == PINF)
            if inf:
                return isinstance(op, ast.NotEq)
            if o and form(a) is not None and form(b) is not None:
                d = form(a).plus(form(b), -1)
                if set(d.d) <= {None}:
                    c = d.d.get(None, 0)
                    return c < 0 if o == '<' else c <= 0 if o == '<=' else c > 0 if o == '>' else c >= 0
                return Cond(form(a), o, form(b))
            return TOP
        if hastop(a) or hastop(b):
            raise Unknown('comparison')
        try:
            return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b,
                    ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
        except TypeError:
            raise Raised('TypeError', None)

    # ------------------------------------------------------------- calls

    def call(self, e, env):
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.iterate(self.ev(a.value, env))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unknown('keywords')
            kw[k.arg] = self.ev(k.value, env)
        return self.apply(f, args, kw, e)

    def apply(self, f, args, kw, e):
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, Getter):
            return self.getitem(args[0], f.i, e)
        if isinstance(f, Meth):
            return self.method(f.obj, f.name, args, kw, e)
        if isinstance(f, Ext):
            return self.ext(f.name, args, kw, e)
        raise Unknown('call')

    def keyed(self, items, key):
        return [self.apply(key, [q], {}, None) if key is not None else q for q in items]

    def method(self, o, name, args, kw, e):
        if isinstance(o, str):
            return 'text'
        if isinstance(o, list):
            if name == 'append':
                o.append(args[0])
                return None
            if name == 'extend':
                o.extend(self.iterate(args[0]))
                return None
            if name == 'insert':
                o.insert(args[0], args[1])
                return None
            if name == 'pop':
                i = args[0] if args else -1
                if hastop(i):
                    raise Unknown('pop')
                if not -len(o) <= i < len(o):
                    raise Raised('IndexError', e)
                return o.pop(i)
            if name == 'remove' and not hastop(args[0]):
                if args[0] not in o:
                    raise Raised('ValueError', e)
                o.remove(args[0])
                return None
            if name == 'index' and not hastop(args[0]):
                if args[0] not in o:
                    raise Raised('ValueError', e)
                return o.index(args[0])
            if name == 'index' and any(q is args[0] for q in o):
                return next(i for i, q in enumerate(o) if q is args[0])
            if name == 'remove' and any(q is args[0] for q in o):
                del o[next(i for i, q in enumerate(o) if q is args[0])]
                return None
            if name == 'sort':
                ks = self.keyed(o, kw.get('key'))
                o[:] = self.arrange(list(o), ks, bool(kw.get('reverse', False)))
                return None
            if name == 'reverse':
                o.reverse()
                return None
            if name == 'copy':
                return self.mklist(o)
            if name == 'count' and not hastop(args[0]):
                return o.count(args[0])
            if name == 'clear':
                o.clear()
                return None
        if isinstance(o, (set, frozenset)):
            if name in ('add', 'discard', 'remove', 'update'):
                if name == 'remove' and args[0] not in o:
                    raise Raised('KeyError', e)
                getattr(o, name)(*[set(self.iterate(a)) if name == 'update' else a for a in args])
                return None
            if name in ('union', 'difference', 'intersection'):
                return getattr(set(o), name)(*[set(self.iterate(a)) for a in args])
            if name == 'copy':
                return set(o)
        if isinstance(o, dict):
            if name in ('items', 'keys', 'values'):
                return [tuple(q) if name == 'items' else q for q in getattr(o, name)()]
            if name == 'pop':
                if args[0] in o:
                    return o.pop(args[0])
                if len(args) > 1:
                    return args[1]
                raise Raised('KeyError', e)
            if name == 'get':
                return o.get(*args)
        if isinstance(o, Vec):
            if name == 'sum':
                if self.derive is not None and any(isinstance(q, Pos) for q in o.items):
                    v = 0
                    for q in o.items:
                        v = self.derived(ast.Add(), v, q)
                    return v
                return total(o.items)
            if name == 'sort' and not args and not kw and not o.part:
                o.items[:] = self.arrange(list(o.items), list(o.items))
                return None
            if name == 'mean':
                return self.binop(ast.Div(), total(o.items), len(o.items), e)
            if name == 'cumsum':
                return Vec(total(o.items[:k + 1]) for k in range(len(o.items)))
            if name == 'clip':
                return self.ext('numpy.clip', [o] + args, kw, e)
            if name in ('argmax', 'argmin'):
                return self.extreme(o.items, name == 'argmax')
            if name == 'copy' or name == 'astype':
                return Vec(o.items)
            if name == 'tolist':
                return self.mklist(o.items)
            if name in ('any', 'all') and not hastop(o):
                return (any if name == 'any' else all)(o.items)
            if name in ('max', 'min'):
                return TOP if hastop(o) else (max if name == 'max' else min)(o.items)
        if isinstance(o, Mat):
            if name == 'sum':
                ax = kw.get('axis', args[0] if args else None)
                if ax is None:
                    return TOP
                return Vec(total([o.at(i, j) if ax == 0 else o.at(j, i) for i in range(o.n if ax == 0 else o.m)])
                           for j in range(o.m if ax == 0 else o.n))
            if name in ('copy', 'astype'):
                return Mat(o.n, o.m, o.rows, o.cols)
            if name == 'transpose':
                return Mat(o.m, o.n, o.cols, o.rows)
        if isinstance(o, int) and name == 'item':
            return o
        raise Unknown('method %s' % name)

    def ext(self, name, args, kw, e):
        short = name.rsplit('.', 1)[1] if '.' in name else name
        if name.startswith('builtins.'):
            if short == 'range':
                if hastop(args):
                    raise Unknown('range')
                if not all(isinstance(a, int) for a in args):
                    raise Raised('TypeError', e)
                return range(*args)
            if short == 'len':
                v = args[0]
                if isinstance(v, Vec):
                    return len(v.items)
                if isinstance(v, Mat):
                    return v.n
                if isinstance(v, Grid):
                    return v.shape()[0]
                if top(v) or isinstance(v, int) or v is None:
                    raise Raised('TypeError', e)
                return len(v)
            if short == 'enumerate':
                if isinstance(args[0], list):
                    return LiveEnum(args[0], args[1] if len(args) > 1 else kw.get('start', 0))
                return [(i, v) for i, v in enumerate(self.iterate(args[0]), *(args[1:] or [kw.get('start', 0)]))]
            if short == 'zip':
                return [tuple(q) for q in zip(*[self.iterate(a) for a in args])]
            if short in ('list', 'tuple'):
                v = self.iterate(args[0]) if args else []
                return self.mklist(v) if short == 'list' else tuple(v)
            if short in ('set', 'frozenset'):
                return set(self.iterate(args[0])) if args else set()
            if short == 'dict' and not args:
                return dict(kw)
            if short == 'sorted':
                v = self.iterate(args[0])
                return self.mklist(self.arrange(v, self.keyed(v, kw.get('key')), bool(kw.get('reverse', False))))
            if short in ('max', 'min'):
                v = self.iterate(args[0]) if len(args) == 1 else args
                if not v:
                    raise Raised('ValueError', e)
                ks = self.keyed(v, kw.get('key'))
                if kw.get('key') is None and hastop(v) and all(not isinstance(q, (list, tuple)) for q in v):
                    return TOP
                return v[self.extreme(ks, short == 'max')]
            if short == 'reversed':
                return self.mklist(self.iterate(args[0])[::-1])
            if short in ('int', 'float', 'bool'):
                v = args[0] if args else 0
                if top(v):
                    return TOP
                if isinstance(v, str):
                    return float(v)
                return v if isinstance(v, bool) and short == 'bool' else int(v) if short == 'int' else bool(v) if short == 'bool' else v
            if short == 'abs':
                return TOP if top(args[0]) else abs(args[0])
            if short == 'sum':
                v = self.iterate(args[0])
                return total(v + list(args[1:]))
            if short in ('any', 'all'):
                v = self.iterate(args[0])
                return (any if short == 'any' else all)(self.truth(q) for q in v)
            if short == 'isinstance':
                raise Unknown('isinstance')
            if short == 'print':
                return None
            if short == 'next':
                v = self.iterate(args[0])
                if v:
                    return v[0]
                if len(args) > 1:
                    return args[1]
                raise Raised('StopIteration', e)
        if name == 'operator.itemgetter' and len(args) == 1 and not hastop(args):
            return Getter(args[0])
        if name == 'warnings.warn':
            return None
        if name.startswith('numpy'):
            if short in ('inf', 'Inf', 'infty'):
                return PINF
            dt = {'dtype'}
            if short == 'full':
                n = args[0][0] if isinstance(args[0], tuple) and len(args[0]) == 1 else args[0]
                if isinstance(n, int):
                    return Vec([args[1]] * max(n, 0))
            if short in ('zeros', 'ones', 'empty'):
                n = args[0][0] if isinstance(args[0], tuple) and len(args[0]) == 1 else args[0]
                if isinstance(n, int):
                    b = dtype_bool(kw.get('dtype', args[1] if len(args) > 1 else None))
                    return Vec([(b if short == 'ones' else False) if b else 1 if short == 'ones' else 0 if short == 'zeros' else None] * n)
            if short in ('full_like', 'zeros_like', 'ones_like', 'empty_like') and isinstance(args[0], Vec):
                v = args[1] if short == 'full_like' else 0 if short != 'ones_like' else 1
                return Vec([v] * len(args[0].items))
            if short in ('array', 'asarray', 'atleast_1d', 'copy'):
                v = args[0]
                if isinstance(v, Mat):
                    return v
                if isinstance(v, Vec) and short == 'asarray':
                    return v
                if v is None:
                    raise Unknown('array')
                its = self.iterate(v) if not isinstance(v, int) else [v]
                if any(isinstance(q, (list, tuple, Vec)) for q in its):
                    raise Unknown('array')
                return Vec(its)
            if short == 'arange':
                return Vec(range(*args))
            if short in ('argmax', 'argmin'):
                if isinstance(args[0], Mat):
                    raise Unknown('argmax')
                return self.extreme(self.iterate(args[0]), short == 'argmax')
            if short == 'sort' and isinstance(args[0], (Vec, list)):
                v = self.iterate(args[0])
                return Vec(self.arrange(v, v))
            if short == 'cumsum':
                v = self.iterate(args[0])
                return Vec(total(v[:k + 1]) for k in range(len(v)))
            if short in ('fmax', 'maximum', 'clip', 'fmin', 'minimum') and len(args) >= 2:
                out = kw.get('out', args[2] if len(args) > 2 and short != 'clip' else args[3] if len(args) > 3 else None)
                if set(kw) - {'out'}:
                    raise Unknown('keywords')
                if short == 'clip' and (len(args) < 3 or args[2] is not None):
                    raise Unknown('clip')
                a, b = (q.items if isinstance(q, Vec) else list(q) if isinstance(q, list) else q for q in args[:2])
                n = next((len(q) for q in (a, b) if isinstance(q, list)), None)
                f = self.larger if short in ('fmax', 'maximum', 'clip') else lambda p, q: negated2(self.larger(negated2(p), negated2(q)))
                if n is None:
                    v = f(a, b)
                else:
                    a, b = (list(q) if isinstance(q, list) else [q] * n for q in (a, b))
                    if len(a) != len(b):
                        raise Unknown('shapes')
                    v = Vec(f(p, q) for p, q in zip(a, b))
                if out is not None:
                    if not isinstance(out, Vec) or out.part or not isinstance(v, Vec) or len(out.items) != len(v.items):
                        raise Unknown('out')
                    out.items[:] = v.items
                    return out
                return v
            if short in ('add', 'subtract', 'multiply', 'divide', 'true_divide') and len(args) in (2, 3) and not set(kw) - {'out'}:
                v = self.binop({'add': ast.Add, 'subtract': ast.Sub, 'multiply': ast.Mult}.get(short, ast.Div)(), args[0], args[1], e)
                out = kw.get('out', args[2] if len(args) > 2 else None)
                if out is not None:
                    if not isinstance(out, Vec) or out.part or not isinstance(v, Vec) or len(out.items) != len(v.items):
                        raise Unknown('out')
                    out.items[:] = v.items
                    return out
                return v
            if short == 'argsort':
                v = self.iterate(args[0])
                return Vec(self.arrange(list(range(len(v))), v))
            if short in ('isin', 'in1d'):
                ys = self.iterate(args[1])
                r = [q in ys for q in self.iterate(args[0])]
                return Vec(not b for b in r) if kw.get('invert') else Vec(r)
            if short == 'setdiff1d':
                ys = self.iterate(args[1])
                return Vec(sorted(q for q in set(self.iterate(args[0])) if q not in ys))
            if short == 'where':
                c = self.iterate(args[0])
                if hastop(c):
                    raise Unknown('where')
                if len(args) == 1:
                    return (Vec(i for i, b in enumerate(c) if b),)
                x, y = (self.iterate(a) if isinstance(a, (Vec, list)) else [a] * len(c) for a in args[1:])
                return Vec(p if b else q for b, p, q in zip(c, x, y))
            if short in ('flatnonzero', 'nonzero'):
                c = self.iterate(args[0])
                v = Vec(i for i, b in enumerate(c) if self.truth(b))
                return v if short == 'flatnonzero' else (v,)
            if short == 'delete':
                v = self.iterate(args[0])
                d = args[1]
                d = [d] if isinstance(d, int) else self.iterate(d)
                if hastop(d):
                    raise Unknown('delete')
                if any(not -len(v) <= q < len(v) for q in d):
                    raise Raised('IndexError', e)
                d = {q % len(v) for q in d}
                return Vec(q for i, q in enumerate(v) if i not in d)
            if short in ('append', 'concatenate', 'hstack'):
                parts = list(args) if short == 'append' else self.iterate(args[0])
                return Vec(itertools.chain(*[self.iterate(p) if isinstance(p, (Vec, list, tuple)) else [p] for p in parts]))
            if short == 'unique':
                return Vec(sorted(set(self.iterate(args[0]))))
            if short in ('sum', 'max', 'min', 'any', 'all', 'abs', 'absolute', 'sqrt', 'dot', 'logical_not'):
                v = args[0]
                if isinstance(v, Vec) and short in ('sum', 'max', 'min', 'any', 'all'):
                    return self.method(v, short, args[1:], kw, e)
                if isinstance(v, Vec) and short == 'logical_not' and not hastop(v):
                    return Vec(not q for q in v.items)
                if top(v):
                    return TOP
                if isinstance(v, Mat) and short == 'sum':
                    return self.method(v, 'sum', args[1:], kw, e)
                if short in ('any', 'all') and isinstance(v, (bool, list)):
                    return v if isinstance(v, bool) else (any if short == 'any' else all)(v)
            if short in ('int64', 'intp', 'int32', 'int'):
                return args[0]
        if short in ('ValueError', 'IndexError', 'RuntimeError'):
            return 'exception'
        raise Unknown('call of %s' % name)


class LiveEnum(list):
    """enumerate of a list that may grow meanwhile."""

    def __init__(self, src, start):
        list.__init__(self, [(i + start, v) for i, v in enumerate(src)])


def live(lst):
    i = 0
    while i < len(lst):
        yield lst[i]
        i += 1


def negated(v):
    return Form({k: -c for k, c in v.d.items()}) if isinstance(v, Form) else TOP


def negated2(v):
    return -v if number(v) else negated(v)


def scaled(f):
    """f up to a positive factor."""
    if not f.d:
        return f.key
    k = min(f.d, key=str)
    c = abs(f.d[k])
    return frozenset((a, Fraction(v) / Fraction(c)) for a, v in f.d.items())


def reaches(facts, a, b):
    """Does a >= b follow from the facts x >= y by transitivity and positive scaling?"""
    d = a.plus(b, -1)
    if set(d.d) <= {None}:
        return d.d.get(None, 0) >= 0
    direct = {scaled(p.plus(q, -1)) for p, q in facts}
    nodes = {a.key: a, b.key: b}
    for p, q in facts:
        nodes[p.key], nodes[q.key] = p, q
    seen, todo = {a.key}, [a]
    while todo:
        x = todo.pop()
        for k, y in nodes.items():
            if k not in seen:
                e = x.plus(y, -1)
                if set(e.d) <= {None} and e.d.get(None, 0) >= 0 or scaled(e) in direct:
                    if k == b.key:
                        return True
                    seen.add(k)
                    todo.append(y)
    return False


def firstof(k):
    return firstof(k[0]) if isinstance(k, (tuple, list)) and k else k


def total(items):
    if any(isinstance(q, (Vec, Mat)) for q in items):
        raise Unknown('sum of arrays')
    out = 0
    for q in items:
        if top(q) or top(out):
            a, b = form(out), form(q)
            out = TOP if a is None or b is None else a.plus(b)
        else:
            out = out + q
    return out


def dtype_bool(d):
    return isinstance(d, Ext) and d.name.endswith('bool') or isinstance(d, Ext) and d.name.endswith('bool_') or d == 'bool'


def loaded(t):
    if isinstance(t, ast.Name):
        return ast.Name(t.id, ast.Load())
    if isinstance(t, ast.Subscript):
        return ast.Subscript(t.value, t.slice, ast.Load())
    raise Unknown('target')


def explore(tree, func, mkargs, limit=4000, full=True, seconds=25):
    """All abstract runs of func: yields (outcome, value, interpreter); outcome in return, raise, unknown."""
    todo = [[]]
    end = time.monotonic() + seconds
    n = 0
    while todo:
        pre = todo.pop()
        n += 1
        if n > limit or time.monotonic() > end:
            yield 'limit', None, None
            return
        I = Finite(tree, pre, full=full)
        args, kw = mkargs(I)
        try:
            v = I.call_fn(I.glob.v[func], args, kw)
            yield 'return', v, I
        except Raised as r:
            yield 'raise', r, I
        except Unknown as u:
            yield 'unknown', str(u), I
        except (_Break, _Continue, RecursionError, AttributeError, TypeError, KeyError) as x:
            yield 'unknown', 'not supported: %s' % x, I
        for d in range(len(pre), len(I.arity)):
            for c in range(1, I.arity[d]):
                todo.append(I.choices[:d] + [c])
