"""Scenarios: symbolic calls of the public API on which the abstract interpreter is run."""
import copy
import sys
import time
import warnings

from . import terms as tm
from . import arrays as ar
from .terms import Term, const, atom, s_add, s_sub, s_mul
from .values import *
from .interp import Program, Interp, Ctl, DeadPath, Event, LoopInfo, PHIINFO, LOOPS

sys.setrecursionlimit(20000)
warnings.simplefilter('ignore')

SPEC = 'spec'
_PROG = {}
_RUN = [0]

KAA = 'reor.archetypal_analysis.KernelAA'
AA = 'reor.archetypal_analysis.ArchetypalAnalysis'
GPNH = 'reor.gpnh_convex_coding.GPNHConvexCoding'
CROM = 'reor.gpnh_convex_coding_crom.GPNHConvexCodingCROM'
MTD = 'reor.mtd_convex_coding.MTDConvexCoding'
FKM = 'reor.fembv_kmeans.FEMBVKMeans'
FVX = 'reor.fembv_varx.FEMBVVARX'
VXM = 'reor.fembv_varx.FEMBVVARXLocalLinearModel'
PWV = 'reor.pwvarx.ClusterPWVARX'
KMC = 'reor.crom.KMeansMarkovCROM'


def program(root='/repo/src'):
    if root not in _PROG:
        _PROG[root] = Program(root)
    return _PROG[root]


class Missing(Exception):
    """An anchor of the analysis is no longer there."""


class S:
    """One analysis session: an interpreter, a state and helpers to make calls."""

    def __init__(self, facts=(), options=None, label=''):
        _RUN[0] += 1
        self.label = label
        self.I = Interp(program(), run='q%d' % _RUN[0])
        self.I.options.update(options or {})
        self.st = self.I.new_state()
        self.I.fr, self.I.ctl = ('mod', 'reor'), Ctl()
        self.I.stack = [('harness', 'harness', 0)]
        self.load_events = list(self.I.events)
        for f in facts:
            self.fact(f)
        self.I.sync(self.st)

    def fact(self, f, val=True):
        self.st.assume(f, val)
        self.I.sync(self.st)

    def arr(self, name, shape, dtype='f', **meta):
        t = atom(name, tuple(shape), kind='arr', dtype='int' if dtype == 'i' else 'float', **meta)
        return self.I.alloc(self.st, Arr(t, name, dtype))

    def arr_of(self, t, name, dtype='f'):
        return self.I.alloc(self.st, Arr(t, name, dtype))

    def lst(self, items, kind='list', name=None):
        return self.I.alloc(self.st, Lst(tuple(items), None, None, kind, name))

    def cls(self, q):
        c = self.I.find_class(q)
        if c is None:
            raise Missing('class or function %s not found' % q)
        return c

    def make(self, q, *args, **kw):
        return self._do(lambda: self.I.call(self.st, self.cls(q), list(args), dict(kw), None))

    def call(self, obj, meth, *args, **kw):
        def go():
            f = self.I.getattr_(self.st, obj, meth, None)
            return self.I.call(self.st, f, list(args), dict(kw), None)
        return self._do(go)

    def fn(self, q, *args, **kw):
        return self._do(lambda: self.I.call(self.st, self.cls(q), list(args), dict(kw), None))

    def _do(self, f):
        if self.st.dead:
            return None
        try:
            return f()
        except DeadPath:
            self.st.dead = True
            return None

    @property
    def dead(self):
        return self.st.dead

    def t(self, v):
        if v is None:
            return None
        self.I.sync(self.st)
        return self.I.models.tt(self.I, self.st, v)

    def t_in(self, st, v):
        self.I.sync(st)
        return self.I.models.tt(self.I, st, v) if v is not None else None

    def attrs(self, o):
        return self.st.heap[o.loc].attrs

    def attr(self, o, name):
        v = self.attrs(o).get(name)
        if v is None:
            raise Missing('attribute %s of %s' % (name, self.st.heap[o.loc].cls.qualname))
        return v

    def at(self, o, name):
        return self.t(self.attr(o, name))

    def spec(self, name, *args, st=None):
        """Term of a reference formula (spec_src.py), interpreted like the package, in a copy of the state."""
        import ast
        import os
        I = self.I
        loc = ('mod', SPEC)
        if loc not in I.mod_state.heap:
            path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'spec_src.py')
            I.prog = copy.copy(I.prog)
            I.prog.trees = dict(I.prog.trees, **{SPEC: ast.parse(open(path).read(), path)})
            n0 = len(I.events)
            I.load_module(SPEC)
            del I.events[n0:]
        st = (st or self.st).copy()
        st.dead = False
        st.heap[loc] = I.mod_state.heap[loc]
        n0, seen = len(I.events), set(I.seen_functions)
        save = self.st
        try:
            f = I.mod_state.heap[loc].vars[name]
            I.sync(st)
            vals = [I.alloc(st, Arr(a, name, 'b' if a.op == 'ew' and a.args[0] in ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'not')
                                    else 'f')) if isinstance(a, Term) and a.shape else a for a in args]
            vals = [I.alloc(st, Lst(tuple(a), None, None, 'list', None)) if isinstance(a, (list, tuple)) else a for a in vals]
            r = I.call(st, f, vals, {}, None)
            return self.t_in(st, r)
        except DeadPath:
            return None
        finally:
            del I.events[n0:]
            I.seen_functions = seen
            I.sync(save)

    def new_events(self, mark=0):
        return self.I.events[mark:]

    def mark(self):
        return len(self.I.events)


# ------------------------------------------------------------ common symbols

def iatom(name, lo=None, **kw):
    if lo is not None:
        kw['lo'] = lo
    return atom(name, (), kind='int', **kw)


def fatom(name, lo=None, **kw):
    if lo is not None:
        kw['lo'] = lo
    return atom(name, (), kind='float', **kw)


def sym():
    """The standard symbols (fresh per process: names are global)."""
    return dict(n=iatom('n_samples', 1), d=iatom('n_features', 1), K=iatom('K', 2), maxit=iatom('max_iterations', 1),
                tol=fatom('tolerance', 0), verb=iatom('verbose', 0), seed=iatom('seed', 0))


def s(v):
    return const(v)


def common(K, **kw):
    y = sym()
    r = dict(n_components=K, random_state=y['seed'], max_iterations=y['maxit'], tolerance=y['tol'],
             verbose=y['verb'])
    r.update(kw)
    return r


class Cfg:
    """A configuration: which model, how it is built and fitted."""

    def __init__(self, model, name, build, fit, data):
        self.model, self.name, self.build, self.fit, self.data = model, name, build, fit, data

    def __repr__(self):
        return '%s[%s]' % (self.model.rsplit('.', 1)[1], self.name)


def ge(a, b):
    return ar.ge0(s_sub(a, b))
