"""Abstract interpreter: forward dataflow over the syntax tree with a value-number domain.

Branches are joined (gated values), loops are solved to a fixpoint with phi terms; no path is enumerated and nothing
of the analysed program is executed.
"""
import ast
import os
import re
from fractions import Fraction
from . import terms as tm, arrays as ar, prove
from .terms import Term, const, atom, intern, s_add, s_sub, s_mul, s_neg, s_div, s_pow, is_num_const, cval, free_atoms
from .values import (UNDEF, MaybeU, Ref, Tup, Alt, Func, Bound, BMeth, Cls, Mod, Ext, Super, RangeV, SeqV, SliceV,
                     Arr, Lst, Dct, Obj, XObj, Rng, Frame, State, NONE)

ZERO, ONE = const(0), const(1)
UNDEF_T = atom('undefined', (), kind='undef')
MAX_UNROLL = 64
MAX_ROUNDS = 14


class DeadPath(Exception):
    """Every path through the current expression raises."""


class Reached(Exception):
    """The analysis was told to stop at the loop it has just reached."""


class Unsupported(Exception):
    pass


class LoopInfo:
    def __init__(self, head, node, func, k):
        self.head, self.node, self.func, self.k = head, node, func, k
        self.n = None
        self.guard = None
        self.brk = None
        self.breaks = []
        self.back = None
        self.head_state = None
        self.entry = None
        self.phis = {}
        self.labels = {}
        self.exit = None
        self.converged = True
        self.lo_facts = frozenset()


PHIINFO = {}       # phi term -> (entry, back, head)
LOOPS = {}         # head id -> LoopInfo


class Ctl:
    def __init__(self):
        self.returns, self.breaks, self.continues, self.raises = [], [], [], []


class Event:
    __slots__ = ('kind', 'file', 'func', 'line', 'data', 'facts', 'pc', 'stack', 'text')

    def __init__(self, kind, file, func, line, data, facts, pc, stack, text):
        self.kind, self.file, self.func, self.line, self.data = kind, file, func, line, data
        self.facts, self.pc, self.stack, self.text = facts, pc, stack, text

    def __repr__(self):
        return 'Event(%s %s:%s %s %r)' % (self.kind, self.func, self.line, self.text, self.data)

    def where(self):
        return '%s:%s (%s)' % (self.file, self.line, self.func)


class Program:
    """Parsed source of the package."""

    def __init__(self, root='/repo/src', package='reor'):
        self.root, self.package = root, package
        self.trees, self.sources = {}, {}
        base = os.path.join(root, package)
        for dirpath, dirs, files in sorted(os.walk(base)):
            for fn in sorted(files):
                if fn.endswith('.py'):
                    path = os.path.join(dirpath, fn)
                    rel = os.path.relpath(path, root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    src = open(path, encoding='utf-8').read()
                    self.sources[rel] = src
                    self.trees[rel] = ast.parse(src, path)


class Interp:
    def __init__(self, program, run='r'):
        self.prog = program
        self.run = run
        self.events = []
        self.counter = 0
        self.stack = []          # (func qualname, file, call line)
        self.fr = None
        self.ctl = None
        self.node = None
        self.trycount = 0
        self.modules = {}
        self.mod_state = State()
        self.depth = 0
        self.captured = set()
        self.options = {}
        self.seen_functions = set()
        self.prov = {}                # scalar value -> the package call that returned it
        self.ext_calls = 0
        self.user_calls = 0
        from . import models
        self.models = models
        for name in program.trees:
            self.load_module(name)

    # ------------------------------------------------------------ infrastructure
    def fresh(self, what=''):
        self.counter += 1
        return '%s:%s%d' % (self.run, what, self.counter)

    def event(self, st, kind, node=None, **data):
        node = node if node is not None and hasattr(node, 'lineno') else self.node
        func, file = (self.stack[-1][0], self.stack[-1][1]) if self.stack else ('<module>', '?')
        try:
            text = ast.unparse(node) if node is not None else ''
        except Exception:
            text = ''
        if isinstance(node, (ast.If, ast.For, ast.While, ast.FunctionDef)):
            text = text.split('\n')[0]
        e = Event(kind, file, func, getattr(node, 'lineno', 0), data, st.facts, st.pc,
                  tuple(s[0] for s in self.stack), text[:160])
        self.events.append(e)
        return e

    def drain_issues(self, st, node=None):
        if ar.ISSUES:
            for kind, kw in ar.ISSUES:
                self.event(st, 'shape', node, issue=kind, **kw)
            del ar.ISSUES[:]

    def sync(self, st):
        prove.set_ctx(st.facts)

    def fresh_once(self, what):
        return self.fresh(what)

    def global_rng(self, st):
        loc = ('global-rng',)
        if loc not in st.heap:
            st.heap[loc] = Rng(atom('numpy.random', (), kind='rng'))
        return Ref(loc)

    def global_state(self, st):
        return st.heap[self.global_rng(st).loc].term

    def advance_global(self, st, what):
        r = self.global_rng(st)
        st.heap[r.loc] = Rng(intern('next', (what, st.heap[r.loc].term, ()), ()))

    def lp_solved(self, st):
        f = st.heap.get(('lp',))
        return f.vars['p'] if f is not None else None

    # ------------------------------------------------------------ modules
    def load_module(self, name):
        if name in self.modules:
            return self.modules[name]
        st = self.mod_state
        loc = ('mod', name)
        m = Mod(name, loc)
        self.modules[name] = m
        st.heap[loc] = Frame({'__name__': const(name)}, None, None)
        tree = self.prog.trees[name]
        save = (self.fr, self.ctl, list(self.stack), self.node)
        self.fr, self.ctl = loc, Ctl()
        self.stack = [('<module %s>' % name, name, 0)]
        try:
            self.exec_block(st, tree.body)
        finally:
            self.fr, self.ctl, self.stack, self.node = save
        return m

    def new_state(self):
        st = self.mod_state.copy()
        st.dead = False
        return st

    def import_name(self, modname):
        if modname in self.prog.trees:
            return self.load_module(modname)
        return Ext(modname)

    def find_class(self, qual):
        mod, name = qual.rsplit('.', 1)
        return self.mod_state.heap[('mod', mod)].vars.get(name)

    # ------------------------------------------------------------ frames
    def setvar(self, st, name, v):
        f = st.heap[self.fr]
        if f.func is not None and name in getattr(f.func, 'globals_', ()):
            loc = ('mod', f.func.module)
            if loc in st.heap:
                g = st.heap[loc]
                self.event(st, 'shared-state', None, name='%s.%s' % (f.func.module, name))
                st.heap[loc] = Frame(dict(g.vars, **{name: v}), g.func, g.parent)
                return
        if name in getattr(f.func, 'nonlocals', ()) if f.func is not None else False:
            p = f.parent
            while p is not None and name not in st.heap[p].vars:
                p = st.heap[p].parent
            if p is not None:
                g = st.heap[p]
                nv = dict(g.vars)
                nv[name] = v
                st.heap[p] = Frame(nv, g.func, g.parent)
                return
        nv = dict(f.vars)
        nv[name] = v
        st.heap[self.fr] = Frame(nv, f.func, f.parent)

    def maybe(self, st, kind, v, node, **data):
        """A name or attribute that may be unbound is read: report it unless the path excludes that."""
        left = []
        for g in v.und:
            if g is not None and any(self.decide(st, c) is (not val) for c, val in g):
                continue
            left.append(g)
        if left:
            precise = all(g is not None for g in left) and not any(
                x.args[0].startswith(('brk@', 'k@', '%s:exc' % self.run)) or ':exc' in x.args[0]
                for g in left for c, _ in g for x in free_atoms(c) if x.op == 'atom')
            self.event(st, kind, node, precise=precise,
                       when=[[(tm.show(c, 3)[:80], val) for c, val in g] for g in left if g is not None], **data)

    def getvar(self, st, name, node):
        loc = self.fr
        while loc is not None:
            f = st.heap[loc]
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, MaybeU):
                    self.maybe(st, 'maybe-unbound', v, node, name=name)
                    return v.v
                if v is UNDEF:
                    self.event(st, 'unbound', node, name=name)
                    raise DeadPath()
                return v
            loc = f.parent
        from .models import BUILTINS
        if name in BUILTINS:
            return Ext('builtins.' + name)
        self.event(st, 'unbound', node, name=name)
        raise DeadPath()

    # ------------------------------------------------------------ heap helpers
    def alloc(self, st, cell, tag='h'):
        loc = self.fresh(tag)
        st.heap[loc] = cell
        return Ref(loc)

    def cell(self, st, ref):
        return st.heap[ref.loc]

    def new_arr(self, st, term, dtype=None, origin=None):
        if isinstance(term, Term) and term.shape == ():
            return term
        return self.alloc(st, Arr(term, origin, dtype), 'a')

    def view_term(self, t, op):
        k = op[0]
        if t.shape is None:
            return ar.ext('view:' + k, (t,) + tuple(x for x in _flatten(op[1:]) if isinstance(x, Term)))
        if k == 'ix':
            return ar.index(t, op[1])
        if k == 'T':
            return ar.T(t) if len(t.shape) == 2 else ar.transpose_axes(t, tuple(reversed(range(len(t.shape)))))
        if k == 'reshape':
            return ar.reshape(t, op[1])
        if k == 'perm':
            return ar.transpose_axes(t, op[1])
        if k == 'diagonal':
            return ar.diagonal(t)
        raise Unsupported(k)

    def read(self, st, ref):
        c = st.heap[ref.loc]
        t = c.term
        for op in ref.path:
            t = self.view_term(t, op)
        return t

    def _write(self, t, path, new):
        if not path:
            return new
        op = path[0]
        inner = self.view_term(t, op)
        ninner = self._write(inner, path[1:], new)
        k = op[0]
        if t.shape is None:
            return ar.ext('viewstore:' + k, (t, ninner))
        if k == 'ix':
            return ar.store(t, op[1], ninner)
        if k == 'T':
            return ar.T(ninner) if len(t.shape) == 2 else \
                ar.transpose_axes(ninner, tuple(reversed(range(len(t.shape)))))
        if k == 'reshape':
            return ar.reshape(ninner, t.shape)
        if k == 'perm':
            inv = [0] * len(op[1])
            for i, p in enumerate(op[1]):
                inv[p] = i
            return ar.transpose_axes(ninner, tuple(inv))
        return ar.ext('viewstore:' + k, (t, ninner), t.shape)

    def write(self, st, ref, new, node=None, vdtype=None):
        """Replace the contents seen through ref by the term new."""
        c = st.heap[ref.loc]
        if not isinstance(c, Arr):
            return
        old = self.read(st, ref)
        if new.shape is not None and old.shape is not None and not ar.same_shape(new.shape, old.shape):
            b = ar.bshape(old.shape, new.shape, 'in-place')
            if b is None or not ar.same_shape(b, old.shape):
                ar.issue('in-place', a=old.shape, b=new.shape)
            new = ar.bcast(new, old.shape)
        if c.dtype in ('i', 'x') and vdtype == 'f':
            self.event(st, 'lossy-store', node, loc=ref.loc)
            if c.dtype == 'i':
                new = ar.toint(new)
        t = self._write(c.term, ref.path, new)
        self.event(st, 'mutate', node, loc=ref.loc, origin=c.origin, term=t, old=c.term)
        st.heap[ref.loc] = Arr(t, c.origin, c.dtype)
        self.drain_issues(st, node)
        al = st.heap.get(('alias', ref.loc))
        if al:
            for q in al:
                if q in st.heap:
                    qc = st.heap[q]
                    if isinstance(qc, Arr):
                        self.event(st, 'mutate', node, loc=q, origin=qc.origin, term=None, old=qc.term, may=True)
                        st.heap[q] = Arr(ar.ext('mayalias', (qc.term, t), qc.term.shape), qc.origin, qc.dtype)

    def arr(self, st, v):
        """Array term of a value, or None."""
        if isinstance(v, Term):
            return v
        if isinstance(v, MaybeU):
            return self.arr(st, v.v)
        if isinstance(v, Ref):
            c = st.heap[v.loc]
            if isinstance(c, Arr):
                return self.read(st, v)
            if isinstance(c, Lst):
                if c.items is None:
                    return c.sym
                return self._stack_items(st, c.items)
            return None
        if isinstance(v, Tup):
            return self._stack_items(st, v.items)
        if isinstance(v, RangeV):
            n = self.range_count(v)
            if n is not None and v.step is ONE:
                return intern('arange', (v.lo, v.hi), (n,))
        return None

    def _stack_items(self, st, items):
        ts = [self.arr(st, x) for x in items]
        if any(t is None for t in ts):
            return None
        if not ts:
            return ar.carr([], (ZERO,))
        if any(t.shape is None for t in ts):
            return ar.ext('array', ts)
        return ar.stack(ts)

    def dtype(self, st, v):
        if isinstance(v, Ref):
            c = st.heap[v.loc]
            if isinstance(c, Arr):
                return c.dtype
            if isinstance(c, Lst) and c.items is not None:
                d = None
                for x in c.items:
                    d = promote(d, self.dtype(st, x))
                return d
            return None
        if isinstance(v, Tup):
            d = None
            for x in v.items:
                d = promote(d, self.dtype(st, x))
            return d
        if isinstance(v, Term):
            if v.op == 'const':
                x = cval(v)
                return 'b' if isinstance(x, bool) else 'i' if isinstance(x, int) else 'f'
            if prove.is_int(v):
                return 'i'
            if is_bool(v):
                return 'b'
            return 'f'
        if isinstance(v, RangeV):
            return 'i'
        return None

    # ------------------------------------------------------------ truth
    def truth(self, st, v):
        if isinstance(v, MaybeU):
            v = v.v
        if isinstance(v, Term):
            if v.op == 'const':
                return const(bool(cval(v)))
            if is_bool(v):
                return v
            m = tm.meta(v)
            if m.get('kind') in ('any', 'bool') or v.op in ('ext',):
                if m.get('kind') == 'bool':
                    return v
                return intern('truth', (v,), ())
            if v.op == 'ite':
                return ar.ite(v.args[0], self.truth(st, v.args[1]), self.truth(st, v.args[2]))
            if m.get('kind') == 'str':
                return intern('truth', (v,), ())
            if v.shape == ():
                if v.op == 'phi' and tm.PHI_KIND.get(v) is None:
                    return intern('truth', (v,), ())
                return ar.b_not(ar.eq0(v))
            return intern('truth', (v,), ())
        if isinstance(v, Ref):
            c = st.heap[v.loc]
            if isinstance(c, Lst):
                if c.items is not None:
                    return const(len(c.items) > 0)
                if c.sym is not None and c.sym.shape:
                    return ar.b_not(ar.eq0(c.sym.shape[0]))
                return intern('truth', (c.sym,) if c.sym is not None else (const(str(v.loc)),), ())
            if isinstance(c, Dct):
                return const(bool(c.items)) if not c.open else intern('truth', (const(str(v.loc)),), ())
            if isinstance(c, Arr):
                t = self.read(st, v)
                if t.shape is not None and all(ar.is_one(d) for d in t.shape):
                    return self.truth(st, ar.index(t, tuple(('i', ZERO) for _ in t.shape)))
                return intern('truth', (t,), ())
            return ar.TRUE
        if isinstance(v, Tup):
            return const(bool(v.items))
        if isinstance(v, Alt):
            return ar.ite(v.cond, self.truth(st, v.a), self.truth(st, v.b))
        if v is UNDEF:
            return ar.FALSE
        return ar.TRUE

    def decide(self, st, c):
        self.sync(st)
        return ar.decide(c)

    # ------------------------------------------------------------ statements
    def exec_block(self, st, stmts):
        for s in stmts:
            if st.dead:
                return
            self.node = s
            self.sync(st)
            try:
                self.exec_stmt(st, s)
            except DeadPath:
                st.dead = True
            if ar.ISSUES:
                self.drain_issues(st, s)

    def exec_stmt(self, st, s):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            self.event(st, 'unsupported', s, what=type(s).__name__)
            return
        m(st, s)

    def st_Expr(self, st, s):
        self.ev(st, s.value)

    def st_Pass(self, st, s):
        pass

    def st_Assign(self, st, s):
        v = self.ev(st, s.value)
        for t in s.targets:
            self.assign(st, t, v)

    def st_AnnAssign(self, st, s):
        if s.value is not None:
            self.assign(st, s.target, self.ev(st, s.value))

    def st_AugAssign(self, st, s):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.getvar(st, t.id, t)
            rhs = self.ev(st, s.value)
            r = self.aug(st, op, cur, rhs, s)
            if r is not None:
                self.setvar(st, t.id, r)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(st, t.value)
            cur = self.getattr_(st, obj, t.attr, t)
            rhs = self.ev(st, s.value)
            r = self.aug(st, op, cur, rhs, s)
            if r is not None:
                self.setattr_(st, obj, t.attr, r, s)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(st, t.value)
            ix = self.ev_index(st, t.slice)
            cur = self.subscript(st, obj, ix, t)
            rhs = self.ev(st, s.value)
            if isinstance(cur, Ref) and isinstance(st.heap[cur.loc], Arr) and isinstance(obj, Ref) and \
                    cur.loc == obj.loc:
                r = self.aug(st, op, cur, rhs, s)
            else:
                r = self.binop(st, op, cur, rhs, s)
                self.store_sub(st, obj, ix, r, s)
        else:
            self.event(st, 'unsupported', s, what='augassign')

    def aug(self, st, op, cur, rhs, node):
        """In-place operation; returns the value to rebind, or None when nothing is to be rebound."""
        if isinstance(cur, Alt):
            return self.split(st, cur, lambda s2, c: self.aug(s2, op, c, rhs, node) or c)
        if isinstance(cur, Ref):
            c = st.heap[cur.loc]
            if isinstance(c, Arr):
                r = self.binop(st, op, cur, rhs, node)
                t = self.arr(st, r)
                d = self.dtype(st, r)
                if c.dtype in ('i', 'x') and d == 'f':
                    self.event(st, 'cast-error', node, loc=cur.loc)
                self.write(st, cur, t, node)
                return cur
            if isinstance(c, Lst) and op == 'Add':
                rhs_items = self.seq_items(st, rhs)
                if c.items is not None and rhs_items is not None:
                    self.event(st, 'mutate', node, loc=cur.loc, origin=c.origin, term=None, old=None)
                    st.heap[cur.loc] = Lst(c.items + tuple(rhs_items), None, c.maxlen, c.kind, c.origin)
                    return cur
        return self.binop(st, op, cur, rhs, node)

    def st_Return(self, st, s):
        v = self.ev(st, s.value) if s.value is not None else NONE
        r = st.copy()
        self.ctl.returns.append((r, v))
        st.dead = True

    def st_Raise(self, st, s):
        name = '?'
        args = ()
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                f = self.ev(st, e.func)
                vals = [self.ev(st, a) for a in e.args if not isinstance(a, ast.Starred)]
            else:
                f = self.ev(st, e)
            name = getattr(f, 'name', getattr(f, 'qualname', '?'))
        self.event(st, 'raise', s, exc=name.replace('builtins.', ''), intry=self.trycount)
        self.ctl.raises.append(st.copy())
        st.dead = True

    def st_Assert(self, st, s):
        c = self.truth(st, self.ev(st, s.test))
        d = self.decide(st, c)
        if d is True:
            return
        if d is False:
            self.event(st, 'raise', s, exc='AssertionError', intry=self.trycount)
            st.dead = True
            return
        dead = st.copy()
        dead.assume(c, False)
        self.event(dead, 'raise', s, exc='AssertionError', intry=self.trycount)
        st.assume(c, True)

    def st_Global(self, st, s):
        f = st.heap[self.fr]
        if f.func is not None:
            f.func.globals_ = set(getattr(f.func, 'globals_', ())) | set(s.names)

    def st_Nonlocal(self, st, s):
        f = st.heap[self.fr]
        if f.func is not None:
            f.func.nonlocals = set(getattr(f.func, 'nonlocals', ())) | set(s.names)

    def st_Delete(self, st, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setvar(st, t.id, UNDEF)
            elif isinstance(t, ast.Attribute):
                o = self.ev(st, t.value)
                if isinstance(o, Ref) and isinstance(st.heap[o.loc], Obj):
                    c = st.heap[o.loc]
                    at = dict(c.attrs)
                    at.pop(t.attr, None)
                    st.heap[o.loc] = Obj(c.cls, at)
            else:
                self.event(st, 'unsupported', s, what='del')

    def st_Import(self, st, s):
        for a in s.names:
            if a.asname:
                self.setvar(st, a.asname, self.import_name(a.name))
            else:
                top = a.name.split('.')[0]
                self.setvar(st, top, self.import_name(top))

    def st_ImportFrom(self, st, s):
        mod = s.module or ''
        if s.level:
            cur = self.stack[-1][1].split('.')
            if self.stack[-1][1] not in ('reor',) and True:
                base = cur[:-s.level] if self.stack[-1][1] != self.prog.package else cur
            mod = '.'.join(base + ([mod] if mod else []))
        for a in s.names:
            if mod == '__future__':
                continue
            if a.name == '*':
                if mod in self.prog.trees:
                    m = self.load_module(mod)
                    for k, v in st.heap[m.frame].vars.items():
                        if not k.startswith('_'):
                            self.setvar(st, k, v)
                continue
            if mod in self.prog.trees:
                m = self.load_module(mod)
                vars_ = self.mod_state.heap[m.frame].vars
                if a.name in vars_:
                    v = vars_[a.name]
                elif mod + '.' + a.name in self.prog.trees:
                    v = self.load_module(mod + '.' + a.name)
                else:
                    self.event(st, 'import-error', s, name='%s.%s' % (mod, a.name))
                    raise DeadPath()
            else:
                v = Ext(mod + '.' + a.name)
            self.setvar(st, a.asname or a.name, v)

    def st_FunctionDef(self, st, s):
        f = self.make_func(st, s)
        for d in reversed(s.decorator_list):
            name = getattr(d, 'id', getattr(d, 'attr', None))
            if name in ('property', 'staticmethod', 'classmethod'):
                f.kind = name
            elif name == 'setter':
                f.kind = 'setter'
            else:
                dv = self.ev(st, d)
                r = self.call(st, dv, [f], {}, s)
                if isinstance(r, Func):
                    f = r
        self.setvar(st, s.name, f)

    st_AsyncFunctionDef = st_FunctionDef

    def make_func(self, st, s):
        mod = self.stack[-1][1]
        outer = self.stack[-1][0]
        name = getattr(s, 'name', '<lambda>')
        qual = name if outer.startswith('<module') else outer + '.' + name
        defaults = [self.ev(st, d) for d in s.args.defaults]
        kwdefaults = [self.ev(st, d) if d is not None else None for d in s.args.kw_defaults]
        frame = self.fr
        if st.heap[frame].func == 'class':
            frame = st.heap[frame].parent
        self.captured.add(frame)
        return Func(s, mod, qual, frame, None, None, tuple(defaults), tuple(kwdefaults))

    def st_ClassDef(self, st, s):
        bases = [self.ev(st, b) for b in s.bases]
        outer = self.stack[-1][0]
        qual = s.name if outer.startswith('<module') else outer + '.' + s.name
        loc = self.fresh('c')
        st.heap[loc] = Frame({}, 'class', self.fr)
        save = self.fr
        self.fr = loc
        self.stack.append((qual, self.stack[-1][1], s.lineno))
        try:
            self.exec_block(st, s.body)
        finally:
            self.fr = save
            self.stack.pop()
        attrs = st.heap.pop(loc).vars
        c = Cls(s.name, qual, bases, dict(attrs), self.stack[-1][1], s)
        for v in attrs.values():
            if isinstance(v, Func) and v.cls is None:
                v.cls = c
        self.setvar(st, s.name, c)

    def st_If(self, st, s):
        c = self.truth(st, self.ev(st, s.test))
        self.fork(st, c, lambda x: self.exec_block(x, s.body), lambda x: self.exec_block(x, s.orelse))

    def fork(self, st, c, f_true, f_false):
        d = self.decide(st, c)
        if d is True:
            f_true(st)
            return
        if d is False:
            f_false(st)
            return
        a, b = st.copy(), st.copy()
        a.assume(c, True)
        b.assume(c, False)
        a.pc = st.pc + ((c, True),)
        b.pc = st.pc + ((c, False),)
        self.sync(a)
        f_true(a)
        self.sync(b)
        f_false(b)
        self.merge_into(st, [x for x in (a, b) if not x.dead])
        self.sync(st)

    def merge_into(self, st, states):
        if not states:
            st.dead = True
            return
        pc = st.pc
        j = self.join_all(states)
        st.become(j)
        if len(states) > 1 or len(pc) <= len(st.pc):
            pass

    def st_Try(self, st, s):
        entry = st.copy()
        save = self.ctl
        ctl = Ctl()
        ctl.returns, ctl.breaks, ctl.continues = save.returns, save.breaks, save.continues
        self.ctl = ctl
        self.trycount += 1
        try:
            self.exec_block(st, s.body)
        finally:
            self.ctl = save
            self.trycount -= 1
        if not st.dead and s.orelse:
            self.exec_block(st, s.orelse)
        outs = [st.copy()] if not st.dead else []
        if s.handlers:
            flag = atom(self.fresh('exc'), (), kind='bool')
            src = entry.copy()
            src.pc = entry.pc + ((flag, True),)
            for o in outs:
                o.pc = entry.pc + ((flag, False),)
            rest = [src]
            for h in s.handlers:
                hs = src.copy()
                if h.name:
                    self.setvar(hs, h.name, ar.ext('exception', (), ()))
                self.exec_block(hs, h.body)
                if not hs.dead:
                    hs.pc = src.pc
                    outs.append(hs)
                    break
            self.event(st, 'try', s)
        else:
            save.raises.extend(ctl.raises)
        if not outs:
            st.dead = True
        else:
            st.become(self.join_all(outs))
        if s.finalbody:
            self.exec_block(st, s.finalbody)

    def st_With(self, st, s):
        for it in s.items:
            v = self.ev(st, it.context_expr)
            if it.optional_vars is not None:
                self.assign(st, it.optional_vars, v)
        self.exec_block(st, s.body)

    def st_Break(self, st, s):
        self.ctl.breaks.append(st.copy())
        st.dead = True

    def st_Continue(self, st, s):
        self.ctl.continues.append(st.copy())
        st.dead = True

    # ------------------------------------------------------------ loops
    def st_For(self, st, s):
        it = self.ev(st, s.iter)
        self.for_each(st, it, lambda x, v: self.assign(x, s.target, v), s.body, s.orelse, s)

    def for_each(self, st, it, bind, body, orelse, node):
        if isinstance(it, Alt):
            def go(x, v):
                self.for_each(x, v, bind, body, orelse, node)
                if x.dead:
                    raise DeadPath()
                return NONE
            self.split(st, it, go)
            return
        run = body if callable(body) else (lambda x: self.exec_block(x, body))
        items = self.concrete_items(st, it)
        if items is not None and len(items) <= MAX_UNROLL:
            base_pc = st.pc
            exits = []
            for v in items:
                if st.dead:
                    break
                save = self.ctl
                ctl = Ctl()
                ctl.returns, ctl.raises = save.returns, save.raises
                self.ctl = ctl
                try:
                    try:
                        bind(st, v)
                        run(st)
                    except DeadPath:
                        st.dead = True
                finally:
                    self.ctl = save
                alive = ([st.copy()] if not st.dead else []) + ctl.continues
                exits.extend(ctl.breaks)
                if alive:
                    st.become(self.join_all(alive))
                else:
                    st.dead = True
            if not st.dead and orelse:
                self.exec_block(st, orelse)
            outs = ([st.copy()] if not st.dead else []) + exits
            if not outs:
                st.dead = True
            else:
                st.become(self.join_all(outs))
            return
        n, elem = self.symbolic_items(st, it, node)
        if n is not None and self.decide(st, ar.ge0(s_neg(n))) is True:
            if orelse:
                self.exec_block(st, orelse)
            return
        self.loop(st, node, n, elem, None, bind, run, orelse)

    def st_While(self, st, s):
        self.loop(st, s, None, None, s.test, None, lambda x: self.exec_block(x, s.body), s.orelse)

    def loop(self, st, node, n, elem, test, bind, run, orelse):
        head = self.fresh('L')
        k = atom('k@' + head, (), kind='int', lo=0)
        brk = atom('brk@' + head, (), kind='bool')
        func = self.stack[-1][0]
        lim = self.options.get('stop_loop')
        if lim is not None and isinstance(n, Term) and lim in tm.free_atoms(n):
            self.event(st, 'reached', node)
            raise Reached()
        info = LoopInfo(head, node, func, k)
        info.n, info.brk, info.file = n, brk, self.stack[-1][1]
        LOOPS[head] = info
        entry = st.copy()
        info.entry = entry
        H = entry
        lj = LoopJoin(self, head, k, entry)
        cnt, ev0 = self.counter, len(self.events)
        rounds = 0
        while True:
            rounds += 1
            self.counter = cnt
            del self.events[ev0:]
            b = H.copy()
            b.dead = False
            b.pc = entry.pc + ((brk, 'iter'),)
            info.head_state = H
            headexit = None
            save = self.ctl
            ctl = Ctl()
            ctl.returns, ctl.raises = save.returns, save.raises
            nret, nrai = len(save.returns), len(save.raises)
            self.ctl = ctl
            try:
                try:
                    if test is not None:
                        self.node = node
                        self.sync(b)
                        c = self.truth(b, self.ev(b, test))
                        if lim is not None and lim in tm.free_atoms(c):
                            self.event(st, 'reached', node)
                            raise Reached()
                        info.guard = c
                        d = self.decide(b, c)
                        if d is not True:
                            headexit = b.copy()
                            headexit.assume(c, False)
                            headexit.pc = entry.pc + ((brk, False),)
                        if d is False:
                            b.dead = True
                        else:
                            b.assume(c, True)
                    else:
                        headexit = H.copy()
                        headexit.dead = False
                        headexit.pc = entry.pc + ((brk, False),)
                        if n is not None:
                            b.assume(ar.ge0(s_sub(s_sub(n, k), ONE)), True)
                    self.sync(b)
                    if not b.dead and bind is not None:
                        bind(b, elem(b, k))
                    if not b.dead:
                        run(b)
                except DeadPath:
                    b.dead = True
            finally:
                self.ctl = save
            alive = ([b] if not b.dead else []) + ctl.continues
            if not alive:
                back = None
                info.back = None
                break
            back = self.join_all(alive)
            info.back = back
            self.sync(entry)
            H2, stable = lj.step(H, back)
            if stable:
                break
            if rounds >= MAX_ROUNDS:
                info.converged = False
                self.event(entry, 'nonconverged', node)
                break
            # returns collected in an unstable round are dropped
            del save.returns[nret:]
            del save.raises[nrai:]
            H = H2
        info.rounds = rounds
        if back is not None:
            lj.record(info, back)
            if n is None and test is not None and headexit is not None:
                cn = counted(info.guard, k, head)
                if cn is not None:
                    self.sync(entry)
                    if prove.prove_ge0(cn):
                        n = info.n = cn
                        headexit.facts = frozenset(f for f in headexit.facts if not _mentions(f, k))
        # exits
        outs = []
        first_ok = n is not None and prove_pos(self, entry, n)
        if headexit is not None:
            if back is None and n is not None and first_ok:
                headexit = None          # the body never completes an iteration and runs at least once
        if headexit is not None:
            if n is not None:
                if back is None:
                    headexit.assume(ar.ge0(s_neg(n)), True)
                else:
                    self.sync(headexit)
                    first = atom('first@' + head, (), kind='bool')
                    self.subst_state(headexit, {k: n, first: const(False)} if first_ok else {k: n})
                    lj.resolve_exit(headexit, first_ok)
            if orelse:
                self.exec_block(headexit, orelse)
            if not headexit.dead:
                outs.append(headexit)
        info.breaks = []
        for x in ctl.breaks:
            rest = x.pc[len(entry.pc) + 1:]
            x.pc = entry.pc + ((brk, True),) + rest
            info.breaks.append((rest, x.facts, x))
            outs.append(x)
        info.exit = headexit
        if not outs:
            st.dead = True
            st.pc = entry.pc
            return
        j = self.join_all(outs)
        j.facts = frozenset(f for f in j.facts if True)
        st.become(j)
        st.pc = st.pc[:len(entry.pc)] if len(outs) > 1 else entry.pc
        self.sync(st)

    def subst_state(self, st, mapping):
        keys = set(mapping)

        def f(v):
            if isinstance(v, Term):
                if free_atoms(v) & keys or tm._shape_has(v, keys):
                    return tm.subst(v, mapping)
                return v
            if isinstance(v, Tup):
                return Tup([f(x) for x in v.items])
            if isinstance(v, MaybeU):
                return MaybeU(f(v.v), tuple(None if g is None else tuple((f(c), val) for c, val in g) for g in v.und))
            if isinstance(v, RangeV):
                return RangeV(f(v.lo), f(v.hi), f(v.step))
            if isinstance(v, Alt):
                c = f(v.cond)
                if isinstance(c, Term) and c.op == 'const':
                    return f(v.a if c is const(True) else v.b)
                return Alt(c, f(v.a), f(v.b))
            if isinstance(v, Ref) and v.path:
                return Ref(v.loc, f_path(v.path))
            return v

        def f_path(p):
            out = []
            for x in p:
                if isinstance(x, tuple):
                    out.append(f_path(x))
                elif isinstance(x, Term):
                    out.append(f(x))
                else:
                    out.append(x)
            return tuple(out)

        for loc, c in list(st.heap.items()):
            n = map_cell(c, f)
            if n is not c:
                st.heap[loc] = n

    # ------------------------------------------------------------ iteration protocols
    def range_count(self, r):
        if r.step is ONE:
            return s_sub(r.hi, r.lo)
        if is_num_const(r.step) and cval(r.step) == -1:
            return s_sub(r.lo, r.hi)
        if all(is_num_const(x) for x in (r.lo, r.hi, r.step)):
            return const(len(range(cval(r.lo), cval(r.hi), cval(r.step))))
        return None

    def concrete_items(self, st, it):
        """List of values if the iterable has a known small length."""
        if isinstance(it, Tup):
            return list(it.items)
        if isinstance(it, RangeV):
            n = self.range_count(it)
            if n is not None and is_num_const(n):
                c = max(0, int(cval(n)))
                if c <= MAX_UNROLL:
                    return [s_add(it.lo, s_mul(const(i), it.step)) for i in range(c)]
                return None
            if n is not None:
                self.sync(st)
                if prove.prove_ge0(s_neg(n)):
                    return []
            return None
        if isinstance(it, Ref):
            c = st.heap[it.loc]
            if isinstance(c, Lst):
                return list(c.items) if c.items is not None else None
            if isinstance(c, Dct) and not c.open:
                return [const(k) if not isinstance(k, Term) else k for k in c.items]
            if isinstance(c, Arr):
                t = self.read(st, it)
                if t.shape and is_num_const(t.shape[0]) and cval(t.shape[0]) <= MAX_UNROLL:
                    return [self.subscript(st, it, [('i', const(i))], None) for i in range(int(cval(t.shape[0])))]
            return None
        if isinstance(it, SeqV):
            parts = [self.concrete_items(st, p) for p in it.parts]
            if it.kind == 'enumerate':
                if parts[0] is None:
                    return None
                return [Tup([s_add(it.extra or ZERO, const(i)), v]) for i, v in enumerate(parts[0])]
            if it.kind == 'zip':
                known = [p for p in parts if p is not None]
                if not known:
                    return None
                n = min(len(p) for p in known)
                out = []
                for i in range(n):
                    row = []
                    for p, raw in zip(parts, it.parts):
                        if p is not None:
                            row.append(p[i])
                        else:
                            cnt, el = self.symbolic_items(st, raw, None)
                            row.append(el(st, const(i)))
                    out.append(Tup(row))
                return out
            if it.kind == 'reversed':
                return None if parts[0] is None else parts[0][::-1]
            if it.kind == 'items':
                c = st.heap[it.parts[0].loc]
                if c.open:
                    return None
                return [Tup([const(k) if not isinstance(k, Term) else k, v]) for k, v in c.items.items()]
            if it.kind == 'values':
                c = st.heap[it.parts[0].loc]
                return None if c.open else list(c.items.values())
            if it.kind == 'map':
                return None if parts[0] is None else [self.call(st, it.extra, [x], {}, self.node) for x in parts[0]]
        if isinstance(it, Term) and it.op == 'const' and isinstance(cval(it), str):
            return [const(ch) for ch in cval(it)]
        return None

    def symbolic_items(self, st, it, node):
        """(count term or None, elem(state, k))."""
        if isinstance(it, RangeV):
            n = self.range_count(it)
            return n, lambda x, k: s_add(it.lo, s_mul(k, it.step))
        if isinstance(it, Ref):
            c = st.heap[it.loc]
            if isinstance(c, Arr):
                t = self.read(st, it)
                n = t.shape[0] if t.shape else None
                return n, lambda x, k: self.subscript(x, it, [('i', k)], node)
            if isinstance(c, Lst) and c.sym is not None and c.sym.shape:
                return c.sym.shape[0], lambda x, k: self.subscript(x, it, [('i', k)], node)
        if isinstance(it, Term) and it.shape:
            return it.shape[0], lambda x, k: ar.index(it, (('i', k),) + tuple(('a',) for _ in it.shape[1:]))
        if isinstance(it, SeqV):
            subs = [self.symbolic_items(st, p, node) for p in it.parts]
            if it.kind == 'enumerate':
                return subs[0][0], lambda x, k: Tup([s_add(it.extra or ZERO, k), subs[0][1](x, k)])
            if it.kind == 'zip':
                n = next((q[0] for q in subs if q[0] is not None), None)
                return n, lambda x, k: Tup([q[1](x, k) for q in subs])
            if it.kind == 'reversed' and subs[0][0] is not None:
                n = subs[0][0]
                return n, lambda x, k: subs[0][1](x, s_sub(s_sub(n, ONE), k))
            if it.kind == 'map':
                return subs[0][0], lambda x, k: self.call(x, it.extra, [subs[0][1](x, k)], {}, node)
        self.event(st, 'opaque-iter', node)
        name = self.fresh('it')
        return atom(name + 'n', (), kind='int', lo=0), \
            lambda x, k: ar.ext('item', (const(name), k))

    def seq_items(self, st, v):
        return self.concrete_items(st, v)

    # ------------------------------------------------------------ joins
    def join_all(self, states):
        if len(states) == 1:
            return states[0]
        L = 0
        while all(len(s.pc) > L for s in states) and len(set(s.pc[L] for s in states)) == 1:
            L += 1
        if any(len(s.pc) <= L for s in states):
            # no condition separates them: fall back to an anonymous choice
            flag = atom(self.fresh('choice'), (), kind='bool')
            a, rest = states[0], self.join_all(states[1:])
            j = self.join2(a, rest, flag)
            j.pc = a.pc[:L]
            return j
        groups = {}
        for s in states:
            c, pol = s.pc[L]
            groups.setdefault(c, {}).setdefault(pol, []).append(s)
        if len(groups) == 1:
            (c, by), = groups.items()
            if True in by and False in by and len(by) == 2:
                a, b = self.join_all(by[True]), self.join_all(by[False])
                j = self.join2(a, b, c)
                j.pc = states[0].pc[:L]
                return j
            parts = [self.join_all(v) for v in by.values()]
        else:
            parts = [self.join_all(v) for g in groups.values() for v in g.values()]
        r = parts[0]
        for p in parts[1:]:
            flag = atom(self.fresh('choice'), (), kind='bool')
            pc = r.pc[:L]
            r = self.join2(r, p, flag)
            r.pc = pc
        return r

    def join2(self, A, B, cond):
        self.counter += 1
        jid = '%s:J%d' % (self.run, self.counter)
        j = Join(self, A, B, jid, cond)
        out = j.run()
        out.facts = A.facts & B.facts
        extra = set()
        for f in A.facts - B.facts:
            # facts of A that are implied on the other side
            prove.set_ctx(B.facts)
            if f[0].op in ('ge0', 'eq0') and ar.decide(f[0]) is f[1]:
                extra.add(f)
        for f in B.facts - A.facts:
            prove.set_ctx(A.facts)
            if f[0].op in ('ge0', 'eq0') and ar.decide(f[0]) is f[1]:
                extra.add(f)
        if extra:
            out.facts = out.facts | extra
        return out

    def split(self, st, v, f):
        """Apply f(state, value) to both sides of an Alt and join."""
        if isinstance(v, MaybeU):
            v = v.v
        if not isinstance(v, Alt):
            return f(st, v)
        d = self.decide(st, v.cond)
        if d is True:
            return self.split(st, v.a, f)
        if d is False:
            return self.split(st, v.b, f)
        outs = []
        for pol, x in ((True, v.a), (False, v.b)):
            s2 = st.copy()
            s2.assume(v.cond, pol)
            s2.pc = st.pc + ((v.cond, pol),)
            self.sync(s2)
            try:
                r = self.split(s2, x, f)
            except DeadPath:
                continue
            outs.append((s2, r))
        return self.join_values(st, outs)

    def join_values(self, st, outs):
        if not outs:
            raise DeadPath()
        if len(outs) == 1:
            pc = st.pc
            s2, r = outs[0]
            st.become(s2)
            self.sync(st)
            return r
        slot = ('ret', self.fresh('v'))
        for s2, r in outs:
            s2.heap[slot] = Frame({'v': r})
        j = self.join_all([s2 for s2, r in outs])
        r = j.heap.pop(slot).vars['v']
        st.become(j)
        self.sync(st)
        return r

    # ------------------------------------------------------------ assignment
    def assign(self, st, t, v):
        if isinstance(t, ast.Name):
            self.setvar(st, t.id, v)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(st, t.value)
            self.setattr_(st, obj, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(st, t.value)
            ix = self.ev_index(st, t.slice)
            self.store_sub(st, obj, ix, v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(st, t, v)
        elif isinstance(t, ast.Starred):
            self.assign(st, t.value, v)
        else:
            self.event(st, 'unsupported', t, what='target')

    def unpack(self, st, t, v):
        n = len(t.elts)
        if isinstance(v, MaybeU):
            v = v.v
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if star:
            k = star[0]
            items = self.concrete_items(st, v) if not isinstance(v, Alt) else None
            if items is None:
                self.event(st, 'unsupported', t, what='starred target')
                items = [ar.ext('item', (const(i), const(self.fresh('u')))) for i in range(n)]
            elif len(items) < n - 1:
                self.event(st, 'unpack', t, got=len(items), want=n)
                raise DeadPath()
            else:
                m = len(items) - (n - 1)
                items = list(items)
                items = items[:k] + [self.alloc(st, Lst(tuple(items[k:k + m])))] + items[k + m:]
            for e, x in zip(t.elts, items):
                self.assign(st, e, x)
            return
        if isinstance(v, Alt):
            items = [Alt(v.cond, a, b) for a, b in zip(self.unpack_values(st, v.a, n), self.unpack_values(st, v.b, n))]
        else:
            items = self.unpack_values(st, v, n, t)
        for e, x in zip(t.elts, items):
            self.assign(st, e, x)

    def unpack_values(self, st, v, n, node=None):
        items = self.concrete_items(st, v)
        if items is None:
            cnt, el = self.symbolic_items(st, v, node)
            if isinstance(v, Ref) and isinstance(st.heap[v.loc], Arr) or isinstance(v, Term):
                return [el(st, const(i)) for i in range(n)]
            return [ar.ext('item', (const(i), const(self.fresh('u')))) for i in range(n)]
        if len(items) != n:
            self.event(st, 'unpack', node, got=len(items), want=n)
            raise DeadPath()
        return items

    def setattr_(self, st, obj, name, v, node):
        if isinstance(obj, MaybeU):
            obj = obj.v
        if isinstance(obj, Ref):
            c = st.heap[obj.loc]
            if isinstance(c, Obj):
                at = dict(c.attrs)
                at[name] = v
                st.heap[obj.loc] = Obj(c.cls, at)
                self.event(st, 'setattr', node, loc=obj.loc, name=name, value=v)
                return
            if isinstance(c, XObj):
                at = dict(c.attrs)
                at[name] = v
                st.heap[obj.loc] = XObj(c.cls, at, c.term)
                return
            if isinstance(c, Arr) and name == 'shape':
                t = self.arr(st, v)
                self.write(st, obj, self.read(st, obj), node)
                return
        if isinstance(obj, Alt):
            self.split(st, obj, lambda s2, o: (self.setattr_(s2, o, name, v, node), NONE)[1])
            return
        if isinstance(obj, (Cls, Mod, Func)):
            self.event(st, 'shared-state', node, name='%s.%s' % (getattr(obj, 'name', getattr(obj, 'qualname', '?')), name))
            return
        self.event(st, 'unsupported', node, what='setattr')

    # ------------------------------------------------------------ subscripts
    def ev_index(self, st, node):
        """List of raw index entries."""
        elts = node.elts if isinstance(node, ast.Tuple) else [node]
        out = []
        for e in elts:
            if isinstance(e, ast.Slice):
                lo = self.ev(st, e.lower) if e.lower is not None else None
                hi = self.ev(st, e.upper) if e.upper is not None else None
                stp = self.ev(st, e.step) if e.step is not None else None
                out.append(('s', self._ixterm(lo), self._ixterm(hi), self._ixterm(stp)))
            else:
                out.extend(self.index_entry(st, self.ev(st, e)))
        return out

    def _ixterm(self, v):
        if v is None or v is NONE:
            return None
        if isinstance(v, MaybeU):
            v = v.v
        if isinstance(v, Term):
            return v
        return ar.ext('bound', (const(self.fresh('b')),), ())

    def index_entry(self, st, v):
        if isinstance(v, MaybeU):
            v = v.v
        if v is NONE or isinstance(v, Ext) and v.name.endswith('newaxis'):
            return [('n',)]
        if isinstance(v, Ext) and v.name == 'builtins.Ellipsis':
            return [('e',)]
        if isinstance(v, SliceV):
            return [('s', v.lo, v.hi, v.step)]
        if isinstance(v, Term):
            if v.op == 'const' and isinstance(cval(v), str):
                return [('key', v)]
            if v.op == 'const' and cval(v) is Ellipsis:
                return [('e',)]
            if v.shape == ():
                return [('i', v)]
            return [('arr', v)] if v.shape is not None else [('opaque', v)]
        if isinstance(v, Ref):
            c = st.heap[v.loc]
            if isinstance(c, Arr):
                t = self.read(st, v)
                return [('mask', t)] if c.dtype == 'b' else [('arr', t)]
            if isinstance(c, Lst):
                t = self.arr(st, v)
                if t is not None:
                    return [('arr', t)]
        if isinstance(v, Tup):
            out = []
            for x in v.items:
                out.extend(self.index_entry(st, x))
            return out
        return [('opaque', ar.ext('ixval', (const(self.fresh('i')),)))]

    def subscript(self, st, obj, ix, node):
        if isinstance(obj, MaybeU):
            obj = obj.v
        if isinstance(obj, Alt):
            return self.split(st, obj, lambda s2, o: self.subscript(s2, o, ix, node))
        if isinstance(obj, Tup):
            return self.seq_index(st, list(obj.items), ix, node, lambda xs: Tup(xs))
        if isinstance(obj, RangeV):
            if len(ix) == 1 and ix[0][0] == 'i':
                return s_add(obj.lo, s_mul(ix[0][1], obj.step))
        if isinstance(obj, Ref):
            c = st.heap[obj.loc]
            if isinstance(c, Lst):
                if c.items is not None:
                    return self.seq_index(st, list(c.items), ix, node,
                                          lambda xs: self.alloc(st, Lst(tuple(xs)), 'l'))
                if c.sym is not None and c.sym.shape is not None:
                    spec = ar.norm_index(c.sym.shape, list(ix[:1]))
                    if spec is not None:
                        r = ar.index(c.sym, spec)
                        return r if r.shape == () else self.new_arr(st, r)
                return ar.ext('listitem', tuple(x for e in ix for x in e if isinstance(x, Term)) + (
                    (c.sym,) if c.sym is not None else ()))
            if isinstance(c, Dct):
                e = ix[0]
                if e[0] == 'key' and cval(e[1]) in c.items:
                    v = c.items[cval(e[1])]
                    return v.v if isinstance(v, MaybeU) else v
                if e[0] in ('key',) and not c.open:
                    self.event(st, 'keyerror', node, key=cval(e[1]))
                    raise DeadPath()
                return ar.ext('dictitem', (const(self.fresh('d')),))
            if isinstance(c, Arr):
                t = self.read(st, obj)
                spec = self.norm(st, t, ix, node)
                if spec is None:
                    return self.new_arr(st, ar.ext('index', (t,) + tuple(_ixterms(ix))), c.dtype)
                r = ar.index(t, spec)
                if r.shape == ():
                    return r
                if any(e[0] in ('arr', 'mask', 'opaque') for e in spec):
                    return self.new_arr(st, r, c.dtype)
                return Ref(obj.loc, compose(self, obj.path, ('ix', spec), t))
            if isinstance(c, XObj):
                return self.models.xsubscript(self, st, obj, c, ix, node)
        if isinstance(obj, Term):
            if obj.op == 'const' and isinstance(cval(obj), str) and len(ix) == 1 and ix[0][0] == 'i' and \
                    is_num_const(ix[0][1]):
                return const(cval(obj)[cval(ix[0][1])])
            if obj.shape:
                spec = ar.norm_index(obj.shape, list(ix))
                if spec is not None:
                    return ar.index(obj, spec)
            if obj.shape == () and obj.op != 'ext' and tm.meta(obj).get('kind') not in ('any', 'str'):
                if all(e[0] in ('n', 'e') for e in ix):
                    return self.new_arr(st, ar.full(tuple(ONE for e in ix if e[0] == 'n'), obj))
                self.event(st, 'shape', node, issue='subscript of a scalar', a=(), b=())
            return ar.ext('index', (obj,) + tuple(_ixterms(ix)))
        return ar.ext('sub', tuple(_ixterms(ix)) + (const(self.fresh('s')),))

    def norm(self, st, t, ix, node):
        if any(e[0] in ('opaque', 'key') for e in ix):
            return None
        self.sync(st)
        spec = ar.norm_index(t.shape, list(ix))
        self.drain_issues(st, node)
        return spec

    def seq_index(self, st, items, ix, node, mk):
        e = ix[0]
        if e[0] == 'i' and is_num_const(e[1]):
            i = int(cval(e[1]))
            if not -len(items) <= i < len(items):
                self.event(st, 'indexerror', node, index=i, length=len(items))
                raise DeadPath()
            return items[i]
        if e[0] == 's':
            def c(t):
                return None if t is None else (int(cval(t)) if is_num_const(t) else 'x')
            lo, hi, stp = c(e[1]), c(e[2]), c(e[3])
            if 'x' not in (lo, hi, stp):
                return mk(items[slice(lo, hi, stp)])
        if e[0] == 'i' and items and all(isinstance(x, Term) and x.shape == () for x in items):
            a = ar.carr(items, (const(len(items)),))
            return ar.index(a, (('i', e[1]),))
        if e[0] == 'i' and items:
            # unknown position in a short list of objects: one of them
            r = items[-1]
            for j in range(len(items) - 2, -1, -1):
                r = items[j] if r == items[j] else Alt(ar.eq0(s_sub(e[1], const(j))), items[j], r)
            return r
        return ar.ext('seqitem', (const(self.fresh('q')),))

    def store_sub(self, st, obj, ix, v, node):
        if isinstance(obj, MaybeU):
            obj = obj.v
        if isinstance(obj, BMeth) and obj.name == 'flat':
            t = self.read(st, obj.obj)
            if t.shape is not None and len(t.shape) == 1:
                return self.store_sub(st, obj.obj, ix, v, node)
            vt = self.arr(st, v)
            self.write(st, obj.obj, ar.ext('touched:flat', (t, vt if vt is not None else const(self.fresh('x'))), t.shape), node)
            return
        if isinstance(obj, Alt):
            self.split(st, obj, lambda s2, o: (self.store_sub(s2, o, ix, v, node), NONE)[1])
            return
        if isinstance(obj, Ref):
            c = st.heap[obj.loc]
            if isinstance(c, Arr):
                t = self.read(st, obj)
                spec = self.norm(st, t, ix, node) if t.shape is not None else None
                vt = self.arr(st, v)
                vd = self.dtype(st, v)
                if vt is None:
                    vt = ar.ext('value', (const(self.fresh('x')),))
                if spec is None:
                    nt = ar.ext('store', (t,) + tuple(_ixterms(ix)) + (vt,), t.shape)
                    self.write(st, obj, nt, node)
                    return
                self.sync(st)
                if c.dtype in ('i', 'x') and vd == 'f':
                    self.event(st, 'lossy-store', node, loc=obj.loc)
                    if c.dtype == 'i':
                        vt = ar.toint(vt)
                nt = ar.store(t, spec, vt)
                self.write(st, obj, nt, node)
                return
            if isinstance(c, Lst):
                self.event(st, 'mutate', node, loc=obj.loc, origin=c.origin, term=None, old=None)
                e = ix[0]
                if c.items is not None and e[0] == 'i' and is_num_const(e[1]) and \
                        -len(c.items) <= cval(e[1]) < len(c.items):
                    items = list(c.items)
                    items[int(cval(e[1]))] = v
                    st.heap[obj.loc] = Lst(tuple(items), None, c.maxlen, c.kind, c.origin)
                    return
                vt = self.arr(st, v)
                if c.items is None and c.sym is not None and c.sym.shape and e[0] == 'i' and vt is not None:
                    spec = ar.norm_index(c.sym.shape, [e])
                    if spec is not None and vt.shape == tuple(c.sym.shape[1:]):
                        st.heap[obj.loc] = Lst(None, ar.store(c.sym, spec, vt), c.maxlen, c.kind, c.origin)
                        return
                base = c.sym if c.sym is not None else ar.ext('list', tuple(x for x in (c.items or ()) if isinstance(x, Term)))
                st.heap[obj.loc] = Lst(None, ar.ext('lstore', (base,) + tuple(_ixterms(ix)) + ((vt,) if vt is not None else ()),
                                                    base.shape), c.maxlen, c.kind, c.origin)
                return
            if isinstance(c, Dct):
                self.event(st, 'mutate', node, loc=obj.loc, origin=c.origin, term=None, old=None)
                e = ix[0]
                if e[0] in ('key', 'i') and e[1].op == 'const':
                    d = dict(c.items)
                    d[cval(e[1])] = v
                    st.heap[obj.loc] = Dct(d, c.origin, c.open)
                else:
                    st.heap[obj.loc] = Dct(c.items, c.origin, True)
                return
        self.event(st, 'unsupported', node, what='item assignment', obj=repr(obj)[:200])

    # ------------------------------------------------------------ attributes
    def getattr_(self, st, v, name, node, default=None):
        if isinstance(v, MaybeU):
            v = v.v
        if isinstance(v, Alt):
            return self.split(st, v, lambda s2, o: self.getattr_(s2, o, name, node, default))
        if isinstance(v, Ref):
            c = st.heap[v.loc]
            if isinstance(c, Obj):
                return self.obj_attr(st, v, c, name, node, default)
            if isinstance(c, Arr):
                return self.models.arr_attr(self, st, v, c, name, node)
            if isinstance(c, XObj):
                return self.models.xattr(self, st, v, c, name, node)
            return BMeth(v, name)
        if isinstance(v, Mod):
            vars_ = self.mod_state.heap[v.frame].vars
            if name in vars_:
                return vars_[name]
            if v.name + '.' + name in self.prog.trees:
                return self.load_module(v.name + '.' + name)
            self.event(st, 'noattr', node, name=name, obj=v.name)
            raise DeadPath()
        if isinstance(v, Ext):
            return self.models.ext_attr(self, st, v, name, node)
        if isinstance(v, Cls):
            x, c = v.lookup(name)
            if x is None:
                if name in ('__name__', '__qualname__'):
                    return const(v.name)
                self.event(st, 'noattr', node, name=name, obj=v.name)
                raise DeadPath()
            return x
        if isinstance(v, Super):
            x, c = v.cls.lookup(name, after=v.cls) if False else self._super_lookup(st, v, name)
            if x is None:
                if name == '__init__':
                    return Ext('builtins.object.__init__')
                self.event(st, 'noattr', node, name=name, obj='super()')
                raise DeadPath()
            return Bound(x, v.self_) if isinstance(x, Func) and x.kind != 'staticmethod' else x
        if isinstance(v, Term):
            return self.models.term_attr(self, st, v, name, node)
        if isinstance(v, (Func, Bound)):
            if name == '__name__':
                return const((v.func if isinstance(v, Bound) else v).node.name)
            return ar.ext('funcattr', (const(name),), ())
        return BMeth(v, name)

    def _super_lookup(self, st, v, name):
        obj = st.heap[v.self_.loc]
        mro = obj.cls.mro()
        if v.cls in mro:
            for c in mro[mro.index(v.cls) + 1:]:
                if name in c.attrs:
                    return c.attrs[name], c
        return None, None

    def obj_attr(self, st, ref, c, name, node, default=None):
        if name in c.attrs:
            v = c.attrs[name]
            self.event(st, 'getattr', node, loc=ref.loc, name=name)
            if isinstance(v, MaybeU):
                if default is None:
                    self.maybe(st, 'maybe-noattr', v, node, name=name, obj=c.cls.name)
                return v.v
            return v
        if name == '__class__':
            return c.cls
        if name == '__dict__':
            return ar.ext('dict', ())
        x, cc = c.cls.lookup(name)
        if x is not None:
            if isinstance(x, Func):
                if x.kind == 'property':
                    return self.call_func(st, x, [ref], {}, node)
                if x.kind == 'staticmethod':
                    return x
                if x.kind == 'classmethod':
                    return Bound(x, c.cls)
                return Bound(x, ref)
            return x
        if default is not None:
            return default
        if c.cls.ext_base() is not None:
            return BMeth(ref, name)
        self.event(st, 'noattr', node, name=name, obj=c.cls.name)
        raise DeadPath()

    # ------------------------------------------------------------ expressions
    def ev(self, st, e):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            self.event(st, 'unsupported', e, what=type(e).__name__)
            return ar.ext('expr', (const(self.fresh('e')),))
        r = m(st, e)
        if ar.ISSUES:
            self.drain_issues(st, e)
        if r is None:
            r = NONE
        return r

    def ev_Constant(self, st, e):
        return const(e.value) if not isinstance(e.value, (bytes, complex)) else ar.ext('const', (const(str(e.value)),), ())

    def ev_Name(self, st, e):
        return self.getvar(st, e.id, e)

    def ev_Attribute(self, st, e):
        return self.getattr_(st, self.ev(st, e.value), e.attr, e)

    def ev_Subscript(self, st, e):
        obj = self.ev(st, e.value)
        ix = self.ev_index(st, e.slice)
        return self.subscript(st, obj, ix, e)

    def ev_Tuple(self, st, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                items = self.concrete_items(st, self.ev(st, x.value))
                if items is None:
                    return ar.ext('tuple', (const(self.fresh('t')),))
                out.extend(items)
            else:
                out.append(self.ev(st, x))
        return Tup(out)

    def ev_List(self, st, e):
        t = self.ev_Tuple(st, e)
        if isinstance(t, Tup):
            return self.alloc(st, Lst(t.items), 'l')
        return t

    def ev_Set(self, st, e):
        return self.ev_List(st, e)

    def ev_Dict(self, st, e):
        d = {}
        open_ = False
        for k, v in zip(e.keys, e.values):
            vv = self.ev(st, v)
            if k is None:
                if isinstance(vv, Ref) and isinstance(st.heap[vv.loc], Dct):
                    d.update(st.heap[vv.loc].items)
                    open_ = open_ or st.heap[vv.loc].open
                else:
                    open_ = True
                continue
            kk = self.ev(st, k)
            if isinstance(kk, Term) and kk.op == 'const':
                d[cval(kk)] = vv
            else:
                open_ = True
        return self.alloc(st, Dct(d, None, open_), 'd')

    def ev_Lambda(self, st, e):
        return self.make_func(st, e)

    def ev_IfExp(self, st, e):
        c = self.truth(st, self.ev(st, e.test))
        return self.choose(st, c, lambda s2: self.ev(s2, e.body), lambda s2: self.ev(s2, e.orelse))

    def choose(self, st, c, f, g):
        d = self.decide(st, c)
        if d is True:
            return f(st)
        if d is False:
            return g(st)
        outs = []
        for pol, h in ((True, f), (False, g)):
            s2 = st.copy()
            s2.assume(c, pol)
            s2.pc = st.pc + ((c, pol),)
            self.sync(s2)
            try:
                r = h(s2)
            except DeadPath:
                continue
            outs.append((s2, r))
        return self.join_values(st, outs)

    def ev_NamedExpr(self, st, e):
        v = self.ev(st, e.value)
        self.assign(st, e.target, v)
        return v

    def ev_BoolOp(self, st, e):
        is_and = isinstance(e.op, ast.And)
        return self._boolop(st, e.values, is_and)

    def _boolop(self, st, values, is_and):
        v = self.ev(st, values[0])
        if len(values) == 1:
            return v
        c = self.truth(st, v)
        d = self.decide(st, c)
        if d is not None:
            if d == is_and:
                return self._boolop(st, values[1:], is_and)
            return v
        # evaluate the rest where it is reached
        if isinstance(v, Term) and is_bool(v):
            base_pc = st.pc
            s2 = st.copy()
            s2.assume(c, is_and)
            s2.pc = st.pc + ((c, is_and),)
            s1 = st.copy()
            s1.assume(c, not is_and)
            s1.pc = st.pc + ((c, not is_and),)
            self.sync(s2)
            heap_before = dict(s2.heap)
            try:
                r = self._boolop(s2, values[1:], is_and)
            except DeadPath:
                st.become(s1)
                self.sync(st)
                return const(not is_and)
            if isinstance(r, Term):
                rb = self.truth(s2, r)
                same = len(s2.heap) == len(heap_before) and all(heap_before.get(k) is x for k, x in s2.heap.items())
                if not same:
                    j = self.join_all([s1, s2] if True else [])
                    st.become(j)
                self.sync(st)
                return ar.b_and([c, rb]) if is_and else ar.b_or([c, rb])
            s1v = const(not is_and)
            return self.join_values(st, [(s2, r), (s1, s1v)])
        f = (lambda s2: self._boolop(s2, values[1:], is_and))
        g = (lambda s2: v)
        return self.choose(st, c, f, g) if is_and else self.choose(st, c, g, f)

    def ev_UnaryOp(self, st, e):
        v = self.ev(st, e.operand)
        if isinstance(e.op, ast.Not):
            return ar.b_not(self.truth(st, v))
        t = self.arr(st, v)
        if t is None:
            return ar.ext('unary', (const(self.fresh('n')),))
        if isinstance(e.op, ast.USub):
            if t.op == 'const' and isinstance(cval(t), float) and not is_num_const(t):
                return const(-cval(t))
            return self.new_arr(st, ar.neg(t), self.dtype(st, v))
        if isinstance(e.op, ast.UAdd):
            return v
        return self.new_arr(st, ar.ew('not', t) if t.shape else ar.b_not(t), 'b')

    def ev_BinOp(self, st, e):
        a = self.ev(st, e.left)
        b = self.ev(st, e.right)
        return self.binop(st, type(e.op).__name__, a, b, e)

    def binop(self, st, op, a, b, node):
        if isinstance(a, MaybeU):
            a = a.v
        if isinstance(b, MaybeU):
            b = b.v
        if isinstance(a, Alt):
            return self.split(st, a, lambda s2, x: self.binop(s2, op, x, b, node))
        if isinstance(b, Alt):
            return self.split(st, b, lambda s2, x: self.binop(s2, op, a, x, node))
        x = self.models.xbinop(self, st, op, a, b)
        if x is not None:
            return x
        # sequences and strings
        r = self.seq_binop(st, op, a, b, node)
        if r is not None:
            return r
        x, y = self.arr(st, a), self.arr(st, b)
        if x is None or y is None:
            return ar.ext('binop' + op, (const(self.fresh('o')),))
        for t in (x, y):
            if t.op == 'const' and cval(t) is None or t is UNDEF_T:
                self.event(st, 'none-operand', node)
                raise DeadPath()
        x, y = scalar_of(x), scalar_of(y)
        d = promote(self.dtype(st, a), self.dtype(st, b))
        self.sync(st)
        if op == 'Div':
            d = 'f'
            self.event(st, 'div', node, num=x, den=y)
        r = self.arith(op, x, y)
        if op in ('BitAnd', 'BitOr') and d == 'b':
            pass
        return self.new_arr(st, r, d)

    def arith(self, op, x, y):
        if x.op == 'const' and isinstance(cval(x), bool):
            x = const(int(cval(x)))
        if y.op == 'const' and isinstance(cval(y), bool):
            y = const(int(cval(y)))
        nonnum = [t for t in (x, y) if t.op == 'const' and not is_num_const(t)]
        if nonnum:
            if x.op == 'const' and y.op == 'const' and op in ('Add', 'Sub', 'Mult') and \
                    all(isinstance(cval(t), float) or is_num_const(t) for t in (x, y)):
                fx, fy = float(cval(x)), float(cval(y))
                return const({'Add': fx + fy, 'Sub': fx - fy, 'Mult': fx * fy}[op])
            return ar.ext(op, (x, y), x.shape if x.shape else y.shape)
        if op == 'Add':
            return ar.add(x, y)
        if op == 'Sub':
            return ar.sub(x, y)
        if op == 'Mult':
            return ar.mul(x, y)
        if op == 'Div':
            return ar.div(x, y)
        if op == 'Pow':
            return ar.power(x, y)
        if op == 'MatMult':
            return ar.dot(x, y)
        if op in ('FloorDiv', 'Mod'):
            nm = 'floordiv' if op == 'FloorDiv' else 'mod'
            if is_num_const(x) and is_num_const(y) and cval(y) != 0:
                return const(cval(x) // cval(y) if op == 'FloorDiv' else cval(x) % cval(y))
            if x.shape == () and y.shape == ():
                if op == 'Mod' and prove.prove_ge0(x) and prove.prove_gt0(s_sub(y, x)):
                    return x
                return intern(nm, (x, y), ())
            return ar.ew(nm, x, y)
        if op == 'BitAnd':
            return ar.b_and([x, y]) if x.shape == () and y.shape == () else ar.ew('and', x, y)
        if op == 'BitOr':
            return ar.b_or([x, y]) if x.shape == () and y.shape == () else ar.ew('or', x, y)
        return ar.ext('op' + op, (x, y), x.shape if x.shape else y.shape)

    def seq_binop(self, st, op, a, b, node):
        la, lb = self.as_list(st, a), self.as_list(st, b)
        if op == 'Mod' and isinstance(a, Term) and (a.op == 'const' and isinstance(cval(a), str)):
            return ar.ext('str', (a,) + tuple(t for t in [self.arr(st, b)] if t is not None), ())
        if op == 'Add' and isinstance(a, Term) and isinstance(b, Term) and a.op == 'const' and b.op == 'const' and \
                isinstance(cval(a), str) and isinstance(cval(b), str):
            return const(cval(a) + cval(b))
        if op == 'Mult' and isinstance(a, Term) and isinstance(b, Term):
            for u in (a, b):
                if u.op == 'const' and isinstance(cval(u), str):
                    return ar.ext('str', (a, b), ())
        if op == 'Add' and la is not None and lb is not None:
            if la[1] is not None and lb[1] is not None:
                items = tuple(la[1]) + tuple(lb[1])
                return Tup(items) if la[0] == 'tuple' else self.alloc(st, Lst(items), 'l')
            return self.alloc(st, Lst(None, ar.ext('concat', (const(self.fresh('c')),))), 'l')
        if op == 'Mult' and (la is not None or lb is not None):
            seq, n = (la, b) if la is not None else (lb, a)
            if isinstance(n, Term) and n.shape == ():
                if is_num_const(n) and seq[1] is not None:
                    items = tuple(seq[1]) * max(0, int(cval(n)))
                    return Tup(items) if seq[0] == 'tuple' else self.alloc(st, Lst(items), 'l')
                if seq[1] is not None and len(seq[1]) == 1 and isinstance(seq[1][0], Term):
                    return self.alloc(st, Lst(None, ar.full((n,), seq[1][0])), 'l')
                return self.alloc(st, Lst(None, ar.ext('repeat', (n,))), 'l')
        return None

    def as_list(self, st, v):
        if isinstance(v, Tup):
            return ('tuple', v.items)
        if isinstance(v, Ref):
            c = st.heap[v.loc]
            if isinstance(c, Lst):
                return ('list', c.items)
        return None

    def ev_Compare(self, st, e):
        left = self.ev(st, e.left)
        cs = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(st, r)
            cs.append(self.compare(st, type(op).__name__, left, right, e))
            left = right
        if len(cs) == 1:
            return cs[0]
        return ar.b_and([self.truth(st, c) for c in cs])

    def compare(self, st, op, a, b, node):
        if isinstance(a, MaybeU):
            a = a.v
        if isinstance(b, MaybeU):
            b = b.v
        if op in ('Is', 'IsNot'):
            r = self.is_(st, a, b)
            return r if op == 'Is' else ar.b_not(r)
        if op in ('In', 'NotIn'):
            r = self.contains(st, a, b, node)
            return r if op == 'In' else ar.b_not(r)
        x = self.models.xbinop(self, st, op, a, b)
        if x is not None:
            return x
        if isinstance(a, Alt):
            return ar.ite(a.cond, self.truth(st, self.compare(st, op, a.a, b, node)),
                          self.truth(st, self.compare(st, op, a.b, b, node)))
        if isinstance(b, Alt):
            return ar.ite(b.cond, self.truth(st, self.compare(st, op, a, b.a, node)),
                          self.truth(st, self.compare(st, op, a, b.b, node)))
        name = {'Eq': 'eq', 'NotEq': 'ne', 'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge'}[op]
        ia, ib = self.as_list(st, a), self.as_list(st, b)
        if ia is not None and ib is not None and ia[1] is not None and ib[1] is not None and name in ('eq', 'ne'):
            if ia[0] != ib[0] or len(ia[1]) != len(ib[1]):
                r = ar.FALSE
            else:
                r = ar.b_and([self.truth(st, self.compare(st, 'Eq', x, y, node)) for x, y in zip(ia[1], ib[1])])
            return r if name == 'eq' else ar.b_not(r)
        if (ia is not None or ib is not None) and name in ('eq', 'ne') and not (
                isinstance(a, Ref) and isinstance(st.heap[a.loc], Arr) or isinstance(b, Ref) and
                isinstance(st.heap[b.loc], Arr)):
            r = ar.ext('seqeq', (const(self.fresh('z')),), ())
            other = b if ia is not None else a
            if isinstance(other, Term) and (other.op == 'const' or tm.meta(other).get('kind') in ('int', 'float', 'str')):
                r = ar.FALSE
            else:
                r = intern('same', tuple(sorted([t for t in (self.arr(st, a), self.arr(st, b)) if t is not None])), ())
            return r if name == 'eq' else ar.b_not(r)
        x, y = self.arr(st, a), self.arr(st, b)
        if x is None or y is None:
            if name in ('eq', 'ne'):
                same = a == b
                if same:
                    return const(name == 'eq')
                return ar.ext('objeq', (const(self.fresh('z')),), ())
            return ar.ext('cmp', (const(self.fresh('z')),), ())
        x, y = scalar_of(x), scalar_of(y)
        if x.shape == () and y.shape == ():
            for t, o in ((x, y), (y, x)):
                if t.op == 'const' and cval(t) is None and name in ('lt', 'le', 'gt', 'ge'):
                    self.event(st, 'none-operand', node)
                    raise DeadPath()
            self.sync(st)
            for t in (x, y):
                if tm.meta(t).get('kind') in ('any',) and name not in ('eq', 'ne'):
                    return intern('cmp_' + name, (x, y), ())
            if any(tm.meta(t).get('kind') == 'any' or t.op in ('ext',) for t in (x, y)) and name in ('eq', 'ne'):
                other = y if tm.meta(x).get('kind') == 'any' or x.op == 'ext' else x
                if not is_num_const(other):
                    r = ar.TRUE if x is y else intern('same', tuple(sorted((x, y))), ())
                    return r if name == 'eq' else ar.b_not(r)
            return ar.compare(name, x, y)
        if x.shape is None or y.shape is None:
            return self.new_arr(st, ar.ext('cmp_' + name, (x, y)), 'b')
        return self.new_arr(st, ar.ew(name, x, y), 'b')

    def is_(self, st, a, b):
        for u, v in ((a, b), (b, a)):
            if u is NONE:
                return self.is_none(v)
        if isinstance(a, Term) and isinstance(b, Term):
            if a is b:
                return ar.TRUE
            if a.op == 'const' and b.op == 'const':
                return const(cval(a) is cval(b) or (type(cval(a)) is type(cval(b)) and cval(a) == cval(b)))
            return intern('is', tuple(sorted((a, b))), ())
        if type(a) is type(b):
            try:
                if a == b:
                    return ar.TRUE
            except Exception:
                pass
            if isinstance(a, Ref):
                return ar.FALSE if a.loc != b.loc else ar.TRUE
        return ar.FALSE

    def is_none(self, v):
        if v is NONE:
            return ar.TRUE
        if isinstance(v, MaybeU):
            return self.is_none(v.v)
        if isinstance(v, Alt):
            return ar.ite(v.cond, self.is_none(v.a), self.is_none(v.b))
        if isinstance(v, Term):
            return none_test(v)
        return ar.FALSE

    def contains(self, st, a, b, node):
        if isinstance(b, Ref) and isinstance(st.heap[b.loc], Dct):
            c = st.heap[b.loc]
            if isinstance(a, Term) and a.op == 'const':
                if cval(a) in c.items:
                    v = c.items[cval(a)]
                    if isinstance(v, MaybeU):
                        return ar.ext('haskey', (a, const(str(b.loc))), ())
                    return ar.TRUE
                if not c.open:
                    return ar.FALSE
            return ar.ext('haskey', (a if isinstance(a, Term) else const('?'), const(str(b.loc))), ())
        items = self.concrete_items(st, b)
        if items is not None:
            return ar.b_or([self.truth(st, self.compare(st, 'Eq', a, x, node)) for x in items]) if items else ar.FALSE
        ta, tb = self.arr(st, a), self.arr(st, b)
        if ta is not None and tb is not None:
            return intern('in', (ta, tb), ())
        return ar.ext('contains', (const(self.fresh('z')),), ())

    def ev_JoinedStr(self, st, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.ev(st, v.value)
                t = self.arr(st, x) if not isinstance(x, (Func, Cls)) else None
                parts.append(t if t is not None else const('?'))
            elif isinstance(v, ast.Constant):
                parts.append(const(v.value))
        return ar.ext('str', tuple(parts), ())

    def ev_FormattedValue(self, st, e):
        return self.ev_JoinedStr(st, ast.JoinedStr([e]))

    def ev_Starred(self, st, e):
        return self.ev(st, e.value)

    def ev_Slice(self, st, e):
        ix = self.ev_index(st, e)
        return SliceV(ix[0][1], ix[0][2], ix[0][3])

    def ev_ListComp(self, st, e):
        return self.comprehension(st, e, e.elt)

    ev_SetComp = ev_ListComp
    ev_GeneratorExp = ev_ListComp

    def ev_DictComp(self, st, e):
        r = self.comprehension(st, e, ast.Tuple([e.key, e.value], ast.Load()))
        items = self.concrete_items(st, r)
        if items is not None and all(isinstance(x, Tup) and isinstance(x.items[0], Term) and x.items[0].op == 'const'
                                     for x in items):
            return self.alloc(st, Dct({cval(x.items[0]): x.items[1] for x in items}), 'd')
        return self.alloc(st, Dct({}, None, True), 'd')

    def comprehension(self, st, e, elt):
        loc = self.fresh('f')
        outer = self.fr
        st.heap[loc] = Frame({}, st.heap[outer].func, outer)
        self.captured.add(outer)
        self.fr = loc
        try:
            out = self._comp(st, e.generators, 0, elt)
        finally:
            self.fr = outer
            st.heap.pop(loc, None)
        if isinstance(out, list):
            return self.alloc(st, Lst(tuple(out)), 'l')
        return self.alloc(st, Lst(None, out), 'l')

    def comp_free(self, st, gens, elt):
        """What an opaque comprehension is computed from: its text and its free variables."""
        bound = {n.id for g in gens for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        out = [const(ast.unparse(elt) + ' ' + ' '.join(ast.unparse(g) for g in gens))]
        seen = set()

        def visit(e):
            chain = e
            while isinstance(chain, ast.Attribute):
                chain = chain.value
            if isinstance(e, (ast.Attribute, ast.Name)) and isinstance(chain, ast.Name):
                key = ast.unparse(e)
                if chain.id in bound or key in seen:
                    return
                seen.add(key)
                try:
                    v = self.ev(st, e)
                    v = self.arr(st, v)
                except DeadPath:
                    raise
                except Exception:
                    v = None
                out.append(v if isinstance(v, Term) else const(key))
                return
            for c in ast.iter_child_nodes(e):
                visit(c)
        visit(elt)
        for g in gens:
            visit(g.iter)
            for c in g.ifs:
                visit(c)
        return tuple(out)

    def _comp(self, st, gens, i, elt):
        if i == len(gens):
            return [self.ev(st, elt)]
        g = gens[i]
        it = self.ev(st, g.iter)
        items = self.concrete_items(st, it)
        if items is not None and len(items) <= 4096:
            out = []
            for v in items:
                self.assign(st, g.target, v)
                keep = True
                for c in g.ifs:
                    d = self.decide(st, self.truth(st, self.ev(st, c)))
                    if d is None:
                        return ar.ext('filtered', (const(self.fresh('g')),))
                    keep = keep and d
                if not keep:
                    continue
                r = self._comp(st, gens, i + 1, elt)
                if not isinstance(r, list):
                    return ar.ext('nested', (const(self.fresh('g')),))
                out.extend(r)
            return out
        n, el = self.symbolic_items(st, it, g.iter)
        if n is None or g.ifs or i + 1 != len(gens):
            return ar.ext('comp', (const(self.fresh('g')),) + self.comp_free(st, gens[i:], elt))
        k = atom('k@' + self.fresh('L'), (), kind='int', lo=0)
        s2 = st.copy()
        s2.assume(ar.ge0(s_sub(s_sub(n, k), ONE)), True)
        self.sync(s2)
        self.assign(s2, g.target, el(s2, k))
        v = self.ev(s2, elt)
        t = self.arr(s2, v)
        self.sync(st)
        # keep the effects on shared state out: a comprehension with side effects is opaque
        for loc, c in s2.heap.items():
            if loc in st.heap and st.heap[loc] is not c and loc != self.fr:
                if isinstance(c, Rng):
                    st.heap[loc] = Rng(ar.ext('rngloop', (c.term,), ()))
                else:
                    self.event(st, 'opaque-comp', g.iter)
        if t is None or t.shape is None:
            return ar.ext('comp', (const(self.fresh('g')),) + ((t,) if t is not None else ()))
        bv = ar.fresh_bv([t])
        body = tm.subst(t, {k: bv})
        return ar.lam(bv, n, 0, body, (n,) + tuple(t.shape))

    # ------------------------------------------------------------ calls
    def ev_Call(self, st, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = st.heap[self.fr].func
            loc = self.fr
            while f is not None and (not isinstance(f, Func) or f.cls is None) and st.heap[loc].parent is not None:
                loc = st.heap[loc].parent
                f = st.heap[loc].func
            if isinstance(f, Func) and f.cls is not None:
                selfv = st.heap[loc].vars.get(f.node.args.args[0].arg)
                return Super(f.cls, selfv)
        fv = self.ev(st, e.func)
        args, kwargs = [], {}
        opened = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                items = self.concrete_items(st, self.ev(st, a.value))
                if items is None:
                    opened = True
                else:
                    args.extend(items)
            else:
                args.append(self.ev(st, a))
        for k in e.keywords:
            v = self.ev(st, k.value)
            if k.arg is None:
                if isinstance(v, MaybeU):
                    v = v.v
                if isinstance(v, Ref) and isinstance(st.heap[v.loc], Dct):
                    d = st.heap[v.loc]
                    for kk, vv in d.items.items():
                        if kk in kwargs:
                            self.event(st, 'bind', e, what='repeated keyword %s' % kk)
                            raise DeadPath()
                        kwargs[kk] = vv
                    opened = opened or d.open
                else:
                    opened = True
            else:
                kwargs[k.arg] = v
        return self.call(st, fv, args, kwargs, e, opened)

    def call(self, st, fv, args, kwargs, node, opened=False):
        if isinstance(fv, MaybeU):
            fv = fv.v
        if isinstance(fv, Alt):
            return self.split(st, fv, lambda s2, f: self.call(s2, f, args, kwargs, node, opened))
        self.node = node
        if isinstance(fv, Func):
            return self.call_func(st, fv, args, kwargs, node, opened)
        if isinstance(fv, Bound):
            return self.call_func(st, fv.func, [fv.self_] + list(args), kwargs, node, opened)
        if isinstance(fv, Cls):
            return self.instantiate(st, fv, args, kwargs, node, opened)
        if isinstance(fv, Ext):
            self.ext_calls += 1
            return self.models.call_ext(self, st, fv.name, args, kwargs, node)
        if isinstance(fv, BMeth):
            return self.models.call_bmeth(self, st, fv, args, kwargs, node)
        if isinstance(fv, Ref):
            c = st.heap[fv.loc]
            if isinstance(c, Obj):
                m, cc = c.cls.lookup('__call__')
                if isinstance(m, Func):
                    return self.call_func(st, m, [fv] + list(args), kwargs, node, opened)
        if isinstance(fv, Term):
            return self.models.call_term(self, st, fv, args, kwargs, node)
        self.event(st, 'notcallable', node)
        return ar.ext('call', (const(self.fresh('x')),))

    def instantiate(self, st, cls, args, kwargs, node, opened=False):
        ref = self.alloc(st, Obj(cls, {}), 'o')
        init, c = cls.lookup('__init__')
        if isinstance(init, Func):
            self.call_func(st, init, [ref] + list(args), kwargs, node, opened)
        elif (args or kwargs) and cls.ext_base() is None:
            self.event(st, 'bind', node, what='%s() takes no arguments' % cls.name)
            raise DeadPath()
        return ref

    def bind(self, st, f, args, kwargs, node, opened):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vars_ = {}
        kw = dict(kwargs)

        def fail(msg):
            self.event(st, 'bind', node, what='%s(): %s' % (f.qualname, msg), callee=f.qualname)
            raise DeadPath()
        for i, v in enumerate(args):
            if i < len(names):
                vars_[names[i]] = v
            elif a.vararg is None:
                fail('takes %d positional arguments but %d were given' % (len(names), len(args)))
        if a.vararg is not None:
            vars_[a.vararg.arg] = Tup(args[len(names):])
        posonly = {x.arg for x in a.posonlyargs}
        for k in list(kw):
            if k in names and k not in posonly:
                if k in vars_:
                    fail('multiple values for argument %r' % k)
                vars_[k] = kw.pop(k)
        for x in a.kwonlyargs:
            if x.arg in kw:
                vars_[x.arg] = kw.pop(x.arg)
        nd = len(f.defaults)
        for i, nme in enumerate(names):
            if nme not in vars_:
                j = i - (len(names) - nd)
                if j >= 0:
                    vars_[nme] = f.defaults[j]
                elif opened:
                    vars_[nme] = ar.ext('arg', (const(nme),))
                else:
                    fail('missing required argument %r' % nme)
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg not in vars_:
                if d is None:
                    fail('missing keyword argument %r' % x.arg)
                vars_[x.arg] = d
        if a.kwarg is not None:
            vars_[a.kwarg.arg] = self.alloc(st, Dct(kw, None, opened), 'd')
        elif kw:
            fail('unexpected keyword argument %r' % sorted(kw)[0])
        return vars_

    def call_func(self, st, f, args, kwargs, node, opened=False):
        hook = self.models.SUMMARIES.get((f.module, f.qualname))
        if hook is not None and getattr(self, 'use_summaries', True):
            r = hook(self, st, f, args, kwargs, node)
            if r is not None:
                return r
        ov = self.options.get('override')
        if ov and f.node.__class__ is not ast.Lambda and f.node.name in ov and args:
            r = ov[f.node.name](self, st, args, kwargs)
            if r is not None:
                return r
        if self.depth > 60:
            self.event(st, 'recursion', node)
            return ar.ext('recursion', (const(f.qualname),))
        self.user_calls += 1
        self.seen_functions.add('%s.%s' % (f.module, f.qualname))
        vars_ = self.bind(st, f, args, kwargs, node, opened)
        loc = self.fresh('f')
        if isinstance(f.node, ast.Lambda):
            loc0 = loc
        st.heap[loc] = Frame(vars_, f, f.frame)
        save = (self.fr, self.ctl, self.node)
        self.fr, self.ctl = loc, Ctl()
        raises = save[1].raises if save[1] is not None else []
        self.ctl.raises = raises
        self.stack.append((f.qualname, f.module, getattr(node, 'lineno', 0)))
        self.depth += 1
        pc0 = st.pc
        before = self.attr_terms(st, args[0]) if args else None
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(st, f.node.body)
                outs = [(st.copy(), v)]
            else:
                if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
                    self.event(st, 'unsupported', f.node, what='generator')
                self.exec_block(st, f.node.body)
                outs = list(self.ctl.returns)
                if not st.dead:
                    outs.append((st.copy(), NONE))
        finally:
            self.fr, self.ctl, self.node = save
            self.stack.pop()
            self.depth -= 1
        st.dead = False
        r = self.join_values(st, outs)
        st.pc = pc0
        if loc not in self.captured:
            st.heap.pop(loc, None)
        if isinstance(r, Term) and r.shape == () and r.op not in ('const', 'atom') and len(args) <= 3:
            self.prov.setdefault(r, (f, tuple(args), dict(kwargs), None))
        if before is not None and len(args) <= 3:
            for a, v in self.attr_terms(st, args[0]).items():
                if before.get(a) is not v and v.op not in ('const', 'atom'):
                    self.prov.setdefault(v, (f, tuple(args), dict(kwargs), a))
        return r

    def attr_terms(self, st, o):
        """Array and scalar values of the attributes of an object."""
        if not isinstance(o, Ref) or not isinstance(st.heap.get(o.loc), Obj):
            return None
        out = {}
        for a, v in st.heap[o.loc].attrs.items():
            if isinstance(v, Term):
                out[a] = v
            elif type(v) is Ref and not v.path and isinstance(st.heap.get(v.loc), Arr) and isinstance(st.heap[v.loc].term, Term):
                out[a] = st.heap[v.loc].term
        return out


# ==================================================================== helpers

def prove_pos(I, st, n):
    I.sync(st)
    return prove.prove_gt0(n)


def _flatten(x):
    for e in x:
        if isinstance(e, tuple):
            yield from _flatten(e)
        else:
            yield e


def _ixterms(ix):
    out = []
    for e in ix:
        out.append(const('ix:' + e[0]))
        for y in e[1:]:
            out.append(y if isinstance(y, Term) else NONE)
    return out


def compose(I, path, op, t):
    if path and path[-1][0] == 'ix' and op[0] == 'ix':
        c = ar.compose_ix(path[-1][1], op[1])
        if c is not None and not any(e[0] == 'n' for e in c):
            return path[:-1] + (('ix', c),)
    if op[0] == 'ix' and ar.is_full(op[1]):
        return path
    return path + (op,)


def _mentions(f, k):
    return any(k in free_atoms(x) for x in (f if isinstance(f, tuple) else (f,)) if isinstance(x, Term))


def counted(g, k, head):
    """N when the condition g of a while loop is k < N for its counter k and a loop-invariant integer N."""
    if g is None or g.op not in ('ge0', 'not'):
        return None
    if g.op == 'ge0':
        n = s_add(s_add(g.args[0], k), ONE)           # ge0(N - 1 - k)
    else:
        h = g.args[0]
        if h.op == 'eq0':
            return None
        if h.op != 'ge0':
            return None
        n = s_sub(k, h.args[0])                       # not ge0(k - N)
    for a in free_atoms(n):
        if str(a.args[0]).endswith('@' + head) or ('@' + head) in str(a.args[0]):
            return None
    return n if prove.is_int(n) else None


def promote(a, b):
    order = {None: -1, 'b': 0, 'i': 1, 'x': 2, 'f': 3, 'o': 4, 'k': 4}
    if a is None or b is None:
        return a or b
    return a if order.get(a, 4) >= order.get(b, 4) else b


def join_dtype(a, b):
    """'x' is an array that is of integers on some paths and of floats on others."""
    if a != b and a in ('b', 'i', 'x', 'f') and b in ('b', 'i', 'x', 'f') and (a in 'fx' or b in 'fx'):
        return 'x'
    return promote(a, b)


BOOLOPS = {'ge0', 'eq0', 'not', 'and', 'or', 'same', 'is', 'isnone', 'truth', 'isinst', 'cmp_lt', 'cmp_le', 'cmp_gt',
           'cmp_ge', 'in', 'forall', 'exists', 'allclose', 'cmp'}


def is_bool(t):
    if t.op == 'const':
        return isinstance(cval(t), bool)
    if t.op in BOOLOPS:
        return True
    if t.op == 'atom':
        return tm.meta(t).get('kind') == 'bool'
    if t.op == 'ite':
        return is_bool(t.args[1]) and is_bool(t.args[2])
    if t.op == 'ext':
        return t.shape == () and (t.args[0].startswith('cmp') or t.args[0] in ('haskey', 'contains', 'seqeq', 'objeq'))
    return False


def scalar_of(t):
    if t.op == 'const' and isinstance(cval(t), bool):
        return const(int(cval(t)))
    return t


def none_test(t):
    if t.op == 'const':
        return const(cval(t) is None)
    if t.op == 'ite':
        return ar.ite(t.args[0], none_test(t.args[1]), none_test(t.args[2]))
    if t.op in ('ext',) and t.shape is None or t.op == 'phi' and PHIINFO.get(t, (None, None))[0] is NONE:
        return intern('isnone', (t,), ())
    if t.op == 'atom':
        m = tm.meta(t)
        if m.get('kind') == 'any' and not m.get('notnone'):
            return intern('isnone', (t,), ())
    return ar.FALSE


def map_cell(c, f):
    """Apply f to the values in a cell."""
    if isinstance(c, Arr):
        t = f(c.term)
        return c if t is c.term else Arr(t, c.origin, c.dtype)
    if isinstance(c, Frame):
        nv, ch = map_dict(c.vars, f)
        return Frame(nv, c.func, c.parent) if ch else c
    if isinstance(c, Obj):
        nv, ch = map_dict(c.attrs, f)
        return Obj(c.cls, nv) if ch else c
    if isinstance(c, Lst):
        if c.items is not None:
            it = tuple(f(x) for x in c.items)
            if all(a is b for a, b in zip(it, c.items)):
                return c
            return Lst(it, c.sym, c.maxlen, c.kind, c.origin)
        if c.sym is not None:
            s = f(c.sym)
            return c if s is c.sym else Lst(None, s, c.maxlen, c.kind, c.origin)
        return c
    if isinstance(c, Dct):
        nv, ch = map_dict(c.items, f)
        return Dct(nv, c.origin, c.open) if ch else c
    if isinstance(c, XObj):
        nv, ch = map_dict(c.attrs, f)
        t = f(c.term) if c.term is not None else None
        return XObj(c.cls, nv, t) if ch or t is not c.term else c
    if isinstance(c, Rng):
        t = f(c.term)
        return c if t is c.term else Rng(t)
    return c


def map_dict(d, f):
    out, ch = {}, False
    for k, v in d.items():
        n = f(v)
        if n is not v:
            ch = True
        out[k] = n
    return out, ch


# ==================================================================== joins

class Join:
    """Join of two states under a condition."""
    loop = False

    def __init__(self, I, A, B, jid, cond):
        self.I, self.A, self.B, self.jid, self.cond = I, A, B, jid, cond
        self.pairs = {}          # (a, b) -> first path
        self.result = {}
        self.products = {}
        self.building = False
        self.newcells = {}
        self.paths = {}

    def run(self):
        A, B = self.A, self.B
        common = [l for l in A.heap if l in B.heap and A.heap[l] is not B.heap[l]]
        self.common = common
        self.walk()
        self.resolve()
        self.building = True
        out = State()
        heap = dict(A.heap)
        for l, c in B.heap.items():
            if l not in heap:
                heap[l] = c
        self.newcells = {}
        prod, self.products = self.products, {}
        cells = self.walk()
        heap.update(cells)
        heap.update(self.newcells)
        out.heap = heap
        out.pc = ()
        return out

    def walk(self):
        out = {}
        for l in self.common:
            out[l] = self.joincell(self.A.heap[l], self.B.heap[l], str(l), l)
        return out

    # -- values
    def term(self, a, b, path):
        if a is b:
            return a
        if not self.building:
            self.pairs.setdefault((a, b), path)
            return a
        return self.result[(a, b)]

    def value(self, a, b, path):
        if a is b:
            return a
        if isinstance(a, MaybeU) or isinstance(b, MaybeU):
            x = a.v if isinstance(a, MaybeU) else a
            y = b.v if isinstance(b, MaybeU) else b
            if x is UNDEF and y is UNDEF:
                return UNDEF
            v = self.value(x, y, path)
            if v is UNDEF:
                return v
            return MaybeU(v.v if isinstance(v, MaybeU) else v, self.guards(a, b))
        if a is UNDEF or b is UNDEF:
            return self.undef(a, b, path)
        if isinstance(a, Term) and isinstance(b, Term):
            return self.term(a, b, path)
        try:
            if type(a) is type(b) and a == b:
                return a
        except Exception:
            pass
        if isinstance(a, Ref) and isinstance(b, Ref):
            return self.refs(a, b, path)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.value(x, y, '%s[%d]' % (path, i)) for i, (x, y) in enumerate(zip(a.items, b.items))])
        if isinstance(a, RangeV) and isinstance(b, RangeV):
            return RangeV(self.term(a.lo, b.lo, path + '.lo'), self.term(a.hi, b.hi, path + '.hi'),
                          self.term(a.step, b.step, path + '.st'))
        if isinstance(a, Func) and isinstance(b, Func) and a.node is b.node and a.frame == b.frame:
            return a
        return self.alt(a, b, path)

    def alt(self, a, b, path):
        if isinstance(a, Alt) and a.cond is self.cond:
            a = a.a
        if isinstance(b, Alt) and b.cond is self.cond:
            b = b.b
        return Alt(self.cond, a, b)

    def undef(self, a, b, path):
        return MaybeU(a if b is UNDEF else b, self.guards(a, b))

    def guards(self, a, b):
        if self.loop:
            return (None,)
        out = []
        for x, val in ((a, True), (b, False)):
            if x is UNDEF:
                out.append(((self.cond, val),))
            elif isinstance(x, MaybeU):
                for g in x.und:
                    g = None if g is None else g + ((self.cond, val),)
                    if g not in out:
                        out.append(g)
        return tuple(out) if len(out) <= 4 else (None,)

    def refs(self, a, b, path):
        if a.loc == b.loc:
            if a.path == b.path:
                return a
            ca, cb = self.A.heap.get(a.loc), self.B.heap.get(b.loc)
            if isinstance(ca, Arr) and isinstance(cb, Arr):
                return self.product_view(a, b, path)
            return self.alt(a, b, path)
        ca, cb = self.A.heap.get(a.loc), self.B.heap.get(b.loc)
        if ca is None or cb is None or type(ca) is not type(cb):
            return self.alt(a, b, path)
        if a.path != b.path:
            if isinstance(ca, Arr):
                return self.product_view(a, b, path)
            return self.alt(a, b, path)
        if isinstance(ca, Obj) and ca.cls is not cb.cls:
            return self.alt(a, b, path)
        if isinstance(ca, Arr) and ca.term.shape is not None and cb.term.shape is not None and \
                len(ca.term.shape) != len(cb.term.shape):
            return self.alt(a, b, path)
        key = (a.loc, b.loc)
        loc = self.products.get(key)
        if loc is None:
            loc = ('P', self.jid, path)
            self.products[key] = loc
            cell = self.joincell(ca, cb, path, loc)
            if self.building:
                self.newcells[loc] = cell
                al = set(self.A.heap.get(('alias', a.loc)) or ()) | set(self.B.heap.get(('alias', b.loc)) or ())
                al |= {a.loc, b.loc}
                self.newcells[('alias', loc)] = frozenset(x for x in al if x != loc)
        return Ref(loc, a.path)

    def product_view(self, a, b, path):
        ta, tb = self.I.read(self.A, a), self.I.read(self.B, b)
        loc = ('P', self.jid, path)
        t = self.term(ta, tb, path)
        if self.building:
            ca, cb = self.A.heap[a.loc], self.B.heap[b.loc]
            self.newcells[loc] = Arr(t, ca.origin if ca.origin == cb.origin else (ca.origin or cb.origin), ca.dtype)
            self.newcells[('alias', loc)] = frozenset((a.loc, b.loc))
        return Ref(loc)

    def mapping(self, da, db, path):
        out = {}
        for k in list(da) + [k for k in db if k not in da]:
            a, b = da.get(k, UNDEF), db.get(k, UNDEF)
            out[k] = self.value(a, b, '%s.%s' % (path, k))
        return out

    def joincell(self, a, b, path, loc):
        if a is b:
            return a
        if isinstance(loc, tuple) and loc and loc[0] == 'alias':
            return frozenset(a) | frozenset(b)
        if type(a) is not type(b):
            return a
        if isinstance(a, Frame):
            return Frame(self.mapping(a.vars, b.vars, path), a.func, a.parent)
        if isinstance(a, Obj):
            return Obj(a.cls, self.mapping(a.attrs, b.attrs, path))
        if isinstance(a, Arr):
            o = a.origin if a.origin == b.origin else merge_origin(a.origin, b.origin)
            return Arr(self.term(a.term, b.term, path), o, join_dtype(a.dtype, b.dtype))
        if isinstance(a, Lst):
            o = a.origin if a.origin == b.origin else merge_origin(a.origin, b.origin)
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                return Lst(tuple(self.value(x, y, '%s[%d]' % (path, i)) for i, (x, y) in
                                 enumerate(zip(a.items, b.items))), None, a.maxlen, a.kind, o)
            return Lst(None, self.term(list_term(a), list_term(b), path), a.maxlen, a.kind, o)
        if isinstance(a, Dct):
            return Dct(self.mapping(a.items, b.items, path), a.origin, a.open or b.open)
        if isinstance(a, XObj):
            return XObj(a.cls, self.mapping(a.attrs, b.attrs, path),
                        self.term(a.term, b.term, path + '!') if a.term is not None and b.term is not None else a.term)
        if isinstance(a, Rng):
            return Rng(self.term(a.term, b.term, path))
        return a

    # -- resolution of the differing terms
    def resolve(self):
        pend = list(self.pairs)
        derived = self.derivations(pend)
        done = self.result
        busy = set()

        def final(p):
            if p in done:
                return done[p]
            if p in busy:
                done[p] = self.leaf(p)
                return done[p]
            busy.add(p)
            d = derived.get(p)
            if d is not None and not self.force_leaf(p):
                expr, uses = d
                r = tm.subst(expr, {t: final(q) for t, q in uses.items()})
                r = ar.quiet(lambda: r)
            else:
                r = self.leaf(p)
            busy.discard(p)
            done[p] = r
            return r
        n = len(ar.ISSUES)
        for p in pend:
            final(p)
        del ar.ISSUES[n:]

    def force_leaf(self, p):
        return False

    def leaf(self, p):
        a, b = p
        if a is UNDEF_T:
            return b
        if b is UNDEF_T:
            return a
        return ar.ite(self.cond, a, b)

    def derivations(self, pairs):
        """pair -> (expression over placeholder atoms, {placeholder: pair}) when both sides are the same function of
        other joined values."""
        out = {}
        if len(pairs) > 400 or len(pairs) < 2:
            return out
        n = len(ar.ISSUES)
        byb = {}
        for p in pairs:
            if p[1].op != 'const' and p[0] is not UNDEF_T:
                byb.setdefault(p[1], []).append(p)
        tmps = {}
        M = {}
        for i, (b, ps) in enumerate(byb.items()):
            t = atom('tmp%d' % b.id, b.shape, **shape_meta(b))
            tmps[t] = ps
            M[b] = t
        allsub = {}
        for p in pairs:
            a, b = p
            if b.op in ('const', 'atom', 'phi') or a is UNDEF_T or b is UNDEF_T:
                continue
            subs = set(tm.subterms(b))
            mm = {x: t for x, t in M.items() if x is not b and x in subs}
            if not mm:
                continue
            e = tm.subst(b, mm)
            used = [t for t in mm.values() if t in free_atoms(e) or tm._shape_has(e, {t})]
            used = [t for t in used if t in free_atoms(e)]
            if not used:
                continue
            # choose, for each placeholder, a pair so that the entry side matches
            choice = {t: tmps[t][0] for t in used}
            ok = None
            combos = [choice]
            for t in used:
                for alt in tmps[t][1:3]:
                    c2 = dict(choice)
                    c2[t] = alt
                    combos.append(c2)
            for c in combos[:6]:
                if any(c[t] == p for t in used):
                    continue
                if tm.subst(e, {t: c[t][0] for t in used}) is a:
                    ok = c
                    break
            if ok:
                out[p] = (e, ok)
        del ar.ISSUES[n:]
        return out


def shape_meta(t):
    m = {}
    if prove.is_int(t):
        m['kind'] = 'int'
    elif is_bool(t):
        m['kind'] = 'bool'
    else:
        m['kind'] = None
    if t.op == 'atom':
        mt = tm.meta(t)
        for k in ('kind', 'dtype', 'symmetric'):
            if k in mt:
                m[k] = mt[k]
    return m


def list_term(c):
    if c.items is not None:
        ts = [x for x in c.items if isinstance(x, Term)]
        return intern('listof', tuple(ts), None)
    return c.sym if c.sym is not None else intern('listof', (const('?'),), None)


def merge_origin(a, b):
    if a is None:
        return b
    if b is None:
        return a
    sa = a if isinstance(a, frozenset) else frozenset([a])
    sb = b if isinstance(b, frozenset) else frozenset([b])
    return sa | sb


class LoopJoin:
    """Fixpoint bookkeeping of one loop head."""

    def __init__(self, I, head, k, entry):
        self.I, self.head, self.k, self.entry = I, head, k, entry
        self.sticky = set()
        self.closed = {}         # path -> closed form valid at head with counter k
        self.prev = None         # path -> term decided last round
        self.last = None
        self.nolonger = set()
        self.undef_prev = {}

    def step(self, H, back):
        j = _HeadJoin(self, self.entry, back)
        out = j.run()
        out.facts = self.entry.facts
        out.pc = self.entry.pc
        dec = {}
        for (a, b), path in j.pairs.items():
            dec[path] = j.result[(a, b)]
        stable = self.prev is not None and dec == self.prev and j.shape_sig() == self.sig
        if self.prev is None and not j.pairs and not j.products and not j.struct:
            stable = True
        self.prev, self.sig = dec, j.shape_sig()
        self.last = j
        return out, stable

    def record(self, info, back):
        j = self.last
        for (a, b), path in j.pairs.items():
            r = j.result[(a, b)]
            info.labels[path] = r
            if r.op == 'phi' and r.args[0] == self.head:
                PHIINFO[r] = (a, b, self.head)
                info.phis[r] = (a, b, path)

    def resolve_exit(self, st, first_ok):
        """Variables assigned in every iteration are bound after a loop that runs at least once."""
        if not first_ok:
            return
        for loc, c in list(st.heap.items()):
            if isinstance(c, Frame) and loc == self.I.fr:
                nv = {}
                ch = False
                for kk, v in c.vars.items():
                    if isinstance(v, MaybeU) and (loc, kk) in self.last.fresh_slots:
                        nv[kk] = v.v
                        ch = True
                    else:
                        nv[kk] = v
                if ch:
                    st.heap[loc] = Frame(nv, c.func, c.parent)
            if isinstance(c, Obj):
                nv = {}
                ch = False
                for kk, v in c.attrs.items():
                    if isinstance(v, MaybeU) and (loc, kk) in self.last.fresh_slots:
                        nv[kk] = v.v
                        ch = True
                    else:
                        nv[kk] = v
                if ch:
                    st.heap[loc] = Obj(c.cls, nv)


class _HeadJoin(Join):
    loop = True

    def __init__(self, lj, entry, back):
        super().__init__(lj.I, entry, back, lj.head, atom('first@' + lj.head, (), kind='bool'))
        self.lj = lj
        self.struct = []
        self.fresh_slots = set()

    def shape_sig(self):
        return (tuple(sorted(str(p) for p in self.products.values())), tuple(sorted(map(str, self.struct))))

    def mapping(self, da, db, path):
        out = {}
        for k in list(da) + [k for k in db if k not in da]:
            a, b = da.get(k, UNDEF), db.get(k, UNDEF)
            if a is UNDEF and b is not UNDEF and not isinstance(b, MaybeU):
                self.fresh_slots.add((self.curloc, k))
            out[k] = self.value(a, b, '%s.%s' % (path, k))
        return out

    def joincell(self, a, b, path, loc):
        self.curloc = loc
        return super().joincell(a, b, path, loc)

    def alt(self, a, b, path):
        self.struct.append(path)
        b = self.rename(b, path)
        return Alt(self.cond, a, b)

    def undef(self, a, b, path):
        if b is UNDEF:
            return MaybeU(a)
        b = self.rename(b, path)
        return b if isinstance(b, MaybeU) else MaybeU(b)

    def rename(self, b, path):
        """Value that exists only on the back edge."""
        if isinstance(b, Term):
            return self.term(UNDEF_T, b, path)
        if isinstance(b, Tup):
            return Tup([self.rename(x, '%s[%d]' % (path, i)) for i, x in enumerate(b.items)])
        if isinstance(b, RangeV):
            return RangeV(*[self.rename(x, path + n) for x, n in ((b.lo, 'lo'), (b.hi, 'hi'), (b.step, 'st'))])
        if isinstance(b, MaybeU):
            return MaybeU(self.rename(b.v, path))
        if isinstance(b, Ref):
            c = self.B.heap.get(b.loc)
            if b.loc in self.A.heap or c is None:
                if b.path and isinstance(c, Arr):
                    loc = ('P', self.jid, path)
                    t = self.term(UNDEF_T, self.I.read(self.B, b), path)
                    if self.building:
                        self.newcells[loc] = Arr(t, c.origin, c.dtype)
                        self.newcells[('alias', loc)] = frozenset((b.loc,))
                    return Ref(loc)
                return b
            key = (None, b.loc)
            loc = self.products.get(key)
            if loc is None:
                loc = ('P', self.jid, path)
                self.products[key] = loc
                if isinstance(c, Arr):
                    cell = Arr(self.term(UNDEF_T, c.term, path), c.origin, c.dtype)
                else:
                    cell = map_cell_paths(c, path, self.rename)
                if self.building:
                    self.newcells[loc] = cell
            if b.path:
                loc2 = ('P', self.jid, path + '/v')
                t = self.term(UNDEF_T, self.I.read(self.B, b), path + '/v')
                if self.building:
                    self.newcells[loc2] = Arr(t, c.origin, c.dtype)
                return Ref(loc2)
            return Ref(loc)
        return b

    def force_leaf(self, p):
        return self.pairs[p] in self.lj.sticky

    def leaf(self, p):
        a, b = p
        lj = self.lj
        path = self.pairs[p]
        k = lj.k
        shape = None
        if a is UNDEF_T:
            shape = b.shape
        elif a.shape is not None and b.shape is not None:
            shape = a.shape if a.shape == b.shape or ar.same_shape(a.shape, b.shape) else None
            if shape is None and len(a.shape) == len(b.shape):
                shape = tuple(x if x is y or prove.prove_eq(x, y) else
                              intern('phi', (lj.head, '%s#%d' % (path, i)), ()) for i, (x, y) in
                              enumerate(zip(a.shape, b.shape)))
        if shape is not None and any(isinstance(d, Term) and k in free_atoms(d) for d in shape):
            shape = None
        name = '%s' % path
        phi = intern('phi', (lj.head, name), shape)
        phi.shape = shape
        if (prove.is_int(a) or a is UNDEF_T) and prove.is_int(tm.subst(b, {}) if True else b):
            tm.PHI_KIND[phi] = 'int'
        elif a is not UNDEF_T and a.op != 'const' and a.shape == () or is_num_const(a):
            tm.PHI_KIND[phi] = 'num'
        PHIINFO[phi] = (a, b, lj.head)
        if path in lj.sticky:
            return phi
        # verify or find a closed form
        cf = lj.closed.get(path)
        if cf is not None:
            want = tm.subst(cf[0], {k: s_add(k, ONE)})
            want = settle(want)
            if want is b or cf[1] == 'prev' and cf[2] is b:
                return cf[0]
            lj.sticky.add(path)
            del lj.closed[path]
            return phi
        prev = lj.prev.get(path) if lj.prev else None
        if prev is phi:
            c = self.closed_form(phi, a, b, k)
            if c is not None:
                lj.closed[path] = c
                return c[0]
        return phi

    def closed_form(self, phi, a, b, k):
        mine = {x for x in free_atoms(b) if x.op == 'phi' and x.args[0] == self.lj.head}
        if not mine:
            if a.shape is None and a is not UNDEF_T or b.shape is None:
                return None
            if any(x.op == 'atom' and str(x.args[0]).startswith('brk') for x in ()):
                return None
            # assigned from loop-invariant values and the counter only: at the head it is the previous one
            if not local_only(b, self.lj):
                return None
            g = tm.subst(b, {k: s_sub(k, ONE)})
            if a is UNDEF_T:
                return (g, 'prev', b)
            if k not in free_atoms(b):
                return (ar.ite(ar.ge0(s_sub(k, ONE)), g, a), 'prev', b)
            return (ar.ite(ar.ge0(s_sub(k, ONE)), g, a), 'prev', b)
        if a is UNDEF_T or mine != {phi}:
            return None
        if phi.shape is None:
            return None
        try:
            delta = ar.sub(b, phi)
        except Exception:
            return None
        if phi not in free_atoms(delta) and local_only(delta, self.lj):
            return (ar.add(a, ar.sumover(k, ZERO, k, delta) if False else sum_upto(k, delta)), 'acc', delta)
        if b.op == 'store' and b.args[0] is phi:
            ix, v = b.args[1], b.args[2]
            moving = [e for e in ix if e[0] == 'i' and k in free_atoms(e[1])]
            if moving and not any(phi in free_atoms(x) for e in ix for x in e if isinstance(x, Term)):
                e = moving[0]
                d = s_sub(tm.subst(e[1], {k: s_add(k, ONE)}), e[1])
                if is_num_const(d) and tm.frac(cval(d)) != 0 and \
                        not any(phi in free_atoms(x) for x in [e[1]]):
                    own = ar.index(phi, ix)
                    ent = ar.index(a, ix)
                    v2 = tm.subst(v, {own: ent}) if own is not phi else v
                    if phi not in free_atoms(v2) and local_only(v2, self.lj):
                        bv = ar.fresh_bv([v2, a] + [x for e in ix for x in e if isinstance(x, Term)])
                        ix2 = tuple(tuple(tm.subst(x, {k: bv}) if isinstance(x, Term) else x for x in e) for e in ix)
                        return (ar.scatter(a, bv, ZERO, k, ix2, tm.subst(v2, {k: bv})), 'scatter', b)
        return None


def sum_upto(k, delta):
    if k not in free_atoms(delta):
        return ar.scale(delta, k) if delta.shape != () else s_mul(delta, k)
    bv = ar.fresh_bv([delta])
    return ar.sumover(bv, ZERO, k, tm.subst(delta, {k: bv}))


def local_only(t, lj):
    """No value that changes from one iteration to the next, other than the counter."""
    for x in free_atoms(t):
        if x.op == 'phi' and x.args[0] == lj.head:
            return False
        if x.op == 'phi' and inner_of(x.args[0], lj.head):
            return False
        if x.op == 'atom' and isinstance(x.args[0], str) and (x.args[0].startswith(('brk@', 'first@', 'k@')) and
                                                              x is not lj.k and
                                                              inner_of(x.args[0].split('@')[1], lj.head)):
            return False
    for u in tm.subterms(t):
        if u.op == 'ext' and u.args[0] == 'time':
            return False
        if u.op == 'empty' and made_in(u.args[0], lj.head):
            return False
    return True


def made_in(name, head):
    try:
        return int(re.search(r'([0-9]+)$', name).group(1)) > int(head.rsplit('L', 1)[1]) and \
            name.split(':')[0] == head.split(':')[0]
    except Exception:
        return True


def inner_of(h, head):
    try:
        return int(h.rsplit('L', 1)[1]) > int(head.rsplit('L', 1)[1]) and h.split(':')[0] == head.split(':')[0]
    except Exception:
        return True


def settle(t):
    if t.op == 'ite':
        d = ar.decide(t.args[0])
        if d is True:
            return t.args[1]
        if d is False:
            return t.args[2]
    return t


def map_cell_paths(c, path, f):
    if isinstance(c, Frame):
        return Frame({k: f(v, '%s.%s' % (path, k)) for k, v in c.vars.items()}, c.func, c.parent)
    if isinstance(c, Obj):
        return Obj(c.cls, {k: f(v, '%s.%s' % (path, k)) for k, v in c.attrs.items()})
    if isinstance(c, Lst):
        if c.items is not None:
            return Lst(tuple(f(v, '%s[%d]' % (path, i)) for i, v in enumerate(c.items)), None, c.maxlen, c.kind, c.origin)
        return Lst(None, f(c.sym, path) if c.sym is not None else None, c.maxlen, c.kind, c.origin)
    if isinstance(c, Dct):
        return Dct({k: f(v, '%s.%s' % (path, k)) for k, v in c.items.items()}, c.origin, c.open)
    if isinstance(c, XObj):
        return XObj(c.cls, {k: f(v, '%s.%s' % (path, k)) for k, v in c.attrs.items()},
                    f(c.term, path + '!') if c.term is not None else None)
    if isinstance(c, Rng):
        return Rng(f(c.term, path))
    return c
