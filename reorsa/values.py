"""Abstract values and heap cells of the interpreter."""
from .terms import Term, const

NONE = const(None)


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class MaybeU:
    """A variable that may be unbound, otherwise has this value."""
    __slots__ = ('v', 'und')

    def __init__(self, v, und=(None,)):
        self.v = v
        self.und = und       # conjunctions of (condition, value) under which it is unbound; None: not known

    def __eq__(self, o):
        return isinstance(o, MaybeU) and o.v == self.v

    def __hash__(self):
        return hash(('mu', self.v))


class Ref:
    """Reference to a heap cell; for arrays with a view path."""
    __slots__ = ('loc', 'path')

    def __init__(self, loc, path=()):
        self.loc, self.path = loc, path

    def __eq__(self, o):
        return isinstance(o, Ref) and o.loc == self.loc and o.path == self.path

    def __hash__(self):
        return hash((self.loc, self.path))

    def __repr__(self):
        return 'Ref(%s%s)' % (self.loc, ', %r' % (self.path,) if self.path else '')


class Tup:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and o.items == self.items

    def __hash__(self):
        return hash(self.items)

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class Alt:
    """Value that is a under cond and b otherwise, for values that are not both scalars or both arrays."""
    __slots__ = ('cond', 'a', 'b')

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __eq__(self, o):
        return isinstance(o, Alt) and (o.cond, o.a, o.b) == (self.cond, self.a, self.b)

    def __hash__(self):
        return hash((self.cond, self.a, self.b))


class Func:
    def __init__(self, node, module, qualname, frame=None, cls=None, kind=None, defaults=(), kwdefaults=()):
        self.node, self.module, self.qualname = node, module, qualname
        self.frame, self.cls, self.kind = frame, cls, kind
        self.defaults, self.kwdefaults = defaults, kwdefaults

    def key(self):
        return (self.qualname, self.frame)

    def __eq__(self, o):
        return isinstance(o, Func) and o.node is self.node and o.frame == self.frame

    def __hash__(self):
        return hash((id(self.node), self.frame))

    def __repr__(self):
        return 'Func(%s)' % self.qualname


class Bound:
    __slots__ = ('func', 'self_')

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __eq__(self, o):
        return isinstance(o, Bound) and o.func == self.func and o.self_ == self.self_

    def __hash__(self):
        return hash((self.func, self.self_))


class BMeth:
    """Bound method of a built-in value (array, list, string, external object...)."""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __eq__(self, o):
        return isinstance(o, BMeth) and o.obj == self.obj and o.name == self.name

    def __hash__(self):
        return hash((self.obj, self.name))


class Cls:
    def __init__(self, name, qualname, bases, attrs, module, node=None):
        self.name, self.qualname, self.bases, self.attrs, self.module, self.node = \
            name, qualname, bases, attrs, module, node

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name, after=None):
        mro = self.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for c in mro:
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def ext_base(self):
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, Ext) and b.name not in ('builtins.object',):
                    return b
        return None

    def __repr__(self):
        return 'Cls(%s)' % self.qualname


class Mod:
    def __init__(self, name, frame):
        self.name, self.frame = name, frame


class Ext:
    """Something from outside the package, by dotted name."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'Ext(%s)' % self.name


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class RangeV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __eq__(self, o):
        return isinstance(o, RangeV) and (o.lo, o.hi, o.step) == (self.lo, self.hi, self.step)

    def __hash__(self):
        return hash((self.lo, self.hi, self.step))


class SeqV:
    """Lazy iterator: enumerate/zip/reversed/map/items."""

    def __init__(self, kind, parts, extra=None):
        self.kind, self.parts, self.extra = kind, parts, extra


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __eq__(self, o):
        return isinstance(o, SliceV) and (o.lo, o.hi, o.step) == (self.lo, self.hi, self.step)

    def __hash__(self):
        return hash((self.lo, self.hi, self.step))


# ------------------------------------------------------------------ cells

class Arr:
    __slots__ = ('term', 'origin', 'dtype')

    def __init__(self, term, origin=None, dtype=None):
        self.term, self.origin, self.dtype = term, origin, dtype


class Lst:
    """items: tuple of values (known length) or None; sym: term of an array-like symbolic list."""
    __slots__ = ('items', 'sym', 'maxlen', 'kind', 'origin')

    def __init__(self, items, sym=None, maxlen=None, kind='list', origin=None):
        self.items, self.sym, self.maxlen, self.kind, self.origin = items, sym, maxlen, kind, origin


class Dct:
    __slots__ = ('items', 'origin', 'open')

    def __init__(self, items, origin=None, open_=False):
        self.items, self.origin, self.open = items, origin, open_


class Obj:
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class XObj:
    """Instance of an external class."""
    __slots__ = ('cls', 'attrs', 'term')

    def __init__(self, cls, attrs, term):
        self.cls, self.attrs, self.term = cls, attrs, term


class Rng:
    __slots__ = ('term',)

    def __init__(self, term):
        self.term = term


class Frame:
    __slots__ = ('vars', 'func', 'parent')

    def __init__(self, vars_, func=None, parent=None):
        self.vars, self.func, self.parent = vars_, func, parent


class State:
    __slots__ = ('heap', 'facts', 'pc', 'dead')

    def __init__(self):
        self.heap = {}
        self.facts = frozenset()
        self.pc = ()
        self.dead = False

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.facts, s.pc, s.dead = self.facts, self.pc, self.dead
        return s

    def become(self, o):
        self.heap, self.facts, self.pc, self.dead = o.heap, o.facts, o.pc, o.dead

    def assume(self, cond, val=True):
        from . import arrays as ar
        todo = [(cond, val)]
        new = set()
        while todo:
            c, v = todo.pop()
            if c.op == 'const':
                continue
            if c.op == 'not':
                todo.append((c.args[0], not v))
                continue
            new.add((c, v))
            if c.op == 'and' and v:
                todo.extend((x, True) for x in c.args[0])
            if c.op == 'or' and not v:
                todo.extend((x, False) for x in c.args[0])
            if c.op == 'or' and v or c.op == 'and' and not v:
                # unit propagation
                open_ = [x for x in c.args[0] if (x, not v) not in self.facts and
                         not (x.op == 'not' and (x.args[0], v) in self.facts)]
                if len(open_) == 1:
                    todo.append((open_[0], v))
        if new - self.facts:
            self.facts = self.facts | new
