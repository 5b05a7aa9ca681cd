"""Models of the library functions the analysed package calls: value, shape, aliasing, effects, and signature."""
from fractions import Fraction
import ast
from . import terms as tm, arrays as ar, prove
from .terms import Term, const, intern, s_add, s_sub, s_mul, s_neg, s_div, is_num_const, cval
from .values import (UNDEF, MaybeU, Ref, Tup, Alt, Func, Bound, BMeth, Cls, Mod, Ext, Super, RangeV, SeqV, SliceV,
                     Arr, Lst, Dct, Obj, XObj, Rng, Frame, State, NONE)

ZERO, ONE = const(0), const(1)
OMIT = object()

BUILTINS = {
    'abs', 'all', 'any', 'bool', 'callable', 'dict', 'dir', 'divmod', 'enumerate', 'filter', 'float', 'format',
    'frozenset', 'getattr', 'hasattr', 'hash', 'id', 'int', 'isinstance', 'issubclass', 'iter', 'len', 'list', 'map',
    'max', 'min', 'next', 'object', 'open', 'pow', 'print', 'property', 'range', 'repr', 'reversed', 'round', 'set',
    'setattr', 'slice', 'sorted', 'staticmethod', 'classmethod', 'str', 'sum', 'super', 'tuple', 'type', 'vars', 'zip',
    'Ellipsis', 'NotImplemented', 'True', 'False', 'None', '__name__',
    'Exception', 'BaseException', 'ValueError', 'TypeError', 'RuntimeError', 'KeyError', 'IndexError',
    'AttributeError', 'NotImplementedError', 'StopIteration', 'ZeroDivisionError', 'ArithmeticError', 'OverflowError',
    'AssertionError', 'ImportError', 'ModuleNotFoundError', 'LookupError', 'NameError', 'OSError',
    'Warning', 'UserWarning', 'RuntimeWarning', 'DeprecationWarning', 'FutureWarning', 'locals', 'globals', 'eval',
    'exec', 'input', 'complex', 'bytes', 'bin', 'chr', 'ord'}

FN = {}            # dotted name -> (signature, handler)


def sig_of(text):
    """Parse 'a b c=None * d=1' into (positional names, defaults, kwonly names, varargs, varkw)."""
    pos, kwonly, required, var, varkw = [], [], set(), False, False
    cur = pos
    for w in text.split():
        if w == '*':
            cur = kwonly
        elif w.startswith('**'):
            varkw = True
        elif w.startswith('*'):
            var = True
            cur = kwonly
        else:
            n = w.rstrip('=')
            cur.append(n)
            if not w.endswith('='):
                required.add(n)
    return pos, kwonly, required, var, varkw


def fn(names, sig):
    """Signature words: 'x' required, 'x=' optional, '*' keyword only from here, '*args', '**kw'."""
    def deco(f):
        for n in names.split():
            FN[n] = (sig_of(sig), f, sig)
        return f
    return deco


class P(dict):
    """Bound arguments; missing ones are None.  Remembers which arguments were looked at."""

    def __init__(self):
        dict.__init__(self)
        self.__dict__['used'] = set()

    def __getattr__(self, k):
        self.used.add(k)
        return dict.get(self, k)

    def get(self, k, d=None):
        self.used.add(k)
        return dict.get(self, k, d)

    def __getitem__(self, k):
        self.used.add(k)
        return dict.__getitem__(self, k)


# arguments that change the result, with the value that does not; a model that does not look at one given otherwise
# yields an opaque result
MATTERS = {'initial': None, 'where': True, 'keepdims': False, 'endpoint': True, 'ndmin': 0, 'axis1': 0, 'axis2': 1,
           'ddof': 0, 'weights': None, 'offset': 0, 'axis': None, 'retstep': False, 'wrap': False, 'side': 'left',
           'sorter': None, 'order': 'C'}
NO_ORDER = {'reshape', 'ravel'}


def overlooked(p):
    out = []
    for k, d in MATTERS.items():
        v = dict.get(p, k)
        if v is None or k in p.used or v is NONE:
            continue
        if k == 'order' and p.get('@') not in NO_ORDER:
            continue
        if isinstance(v, Term) and tm.is_const(v) and cval(v) == d and type(cval(v)) in (type(d), int):
            continue
        out.append(k)
    return out


def bind_sig(I, st, name, sig, args, kwargs, node):
    pos, kwonly, required, var, varkw = sig
    p = P()
    p['@'] = name.rsplit('.', 1)[-1]
    extra = []
    for i, v in enumerate(args):
        if i < len(pos):
            p[pos[i]] = v
        elif var:
            extra.append(v)
        else:
            I.event(st, 'bind', node, what='%s() takes %d positional arguments but %d were given' %
                    (name, len(pos), len(args)), callee=name)
            from .interp import DeadPath
            raise DeadPath()
    for k, v in kwargs.items():
        if k in p:
            I.event(st, 'bind', node, what='%s(): multiple values for argument %r' % (name, k), callee=name)
            from .interp import DeadPath
            raise DeadPath()
        if k in pos or k in kwonly or varkw:
            p[k] = v
        else:
            I.event(st, 'bind', node, what='%s(): unexpected keyword argument %r' % (name, k), callee=name)
            from .interp import DeadPath
            raise DeadPath()
    for r in required:
        if r not in p:
            I.event(st, 'bind', node, what='%s(): missing argument %r' % (name, r), callee=name)
            from .interp import DeadPath
            raise DeadPath()
    if extra:
        p['*'] = extra
    return p


# ------------------------------------------------------------------ helpers

def strip(v):
    return v.v if isinstance(v, MaybeU) else v


def tt(I, st, v):
    """Term of any value."""
    v = strip(v)
    if v is None:
        return NONE
    t = I.arr(st, v)
    if t is not None:
        return t
    if isinstance(v, Ref):
        c = st.heap[v.loc]
        if isinstance(c, XObj):
            return c.term
        if isinstance(c, Rng):
            return c.term
        if isinstance(c, Obj):
            return ar.ext('object', (const(c.cls.name),) + tuple(
                x for k in sorted(c.attrs) for x in [c.attrs[k]] if isinstance(x, Term)), ())
        if isinstance(c, Dct):
            return ar.ext('dict', tuple(y for k in sorted(c.items, key=str) for y in (
                const(str(k)), tt(I, st, c.items[k]))), ())
    if isinstance(v, Alt):
        a, b = tt(I, st, v.a), tt(I, st, v.b)
        return ar.ite(v.cond, a, b)
    if isinstance(v, (Tup,)):
        return ar.ext('tuple', tuple(tt(I, st, x) for x in v.items), ())
    if isinstance(v, Ext):
        return const('<%s>' % v.name)
    if isinstance(v, (Func, Cls)):
        return const('<%s>' % v.qualname)
    if isinstance(v, Bound):
        return ar.ext('bound', (const(v.func.qualname), tt(I, st, v.self_)), ())
    return ar.ext('value', (const(I.fresh('v')),))


def shp(I, st, v):
    """Shape argument -> tuple of terms, or None."""
    v = strip(v)
    if isinstance(v, Term):
        if v.shape == () and v.op != 'ext':
            return (v,)
        if v.shape == () and v.op == 'ext':
            return (v,) if prove.is_int(v) else None
        if v.shape and len(v.shape) == 1 and v.op == 'carr':
            return tuple(v.args[0])
        return None
    if isinstance(v, Tup):
        items = v.items
    elif isinstance(v, Ref) and isinstance(st.heap[v.loc], Lst) and st.heap[v.loc].items is not None:
        items = st.heap[v.loc].items
    elif isinstance(v, Ref) and isinstance(st.heap[v.loc], Arr):
        t = I.read(st, v)
        if t.shape and len(t.shape) == 1:
            c = ar.to_carr(t)
            return tuple(c.args[0]) if c is not None else None
        return None
    else:
        return None
    out = []
    for x in items:
        x = strip(x)
        t = x if isinstance(x, Term) else I.arr(st, x)
        if t is None or t.shape != ():
            return None
        if t.op == 'const' and cval(t) is None:
            I.event(st, 'none-operand', None)
        out.append(t)
    return tuple(out)


def conv(I, st, v, t, d):
    """The term t of the value v converted to the type d."""
    return ar.toint(t) if d == 'i' and I.dtype(st, v) == 'f' else t


def dt(I, st, v):
    """dtype argument -> code or None."""
    v = strip(v)
    if v is None or v is NONE:
        return None
    if isinstance(v, Ext):
        n = v.name.rsplit('.', 1)[-1]
        if n.startswith('float') or n in ('double', 'single', 'longdouble'):
            return 'f'
        if n.startswith(('int', 'uint')) or n in ('integer', 'intp', 'long'):
            return 'i'
        if n.startswith('bool'):
            return 'b'
        return 'o' if n.startswith('object') else None
    if isinstance(v, Term):
        if v.op == 'const' and isinstance(cval(v), str):
            c = cval(v).lstrip('<>=|')
            if c[:1] in 'fd' or c.startswith('float') or c == 'double':
                return 'f'
            if c[:1] in 'iu' or c in ('l', 'q', 'int'):
                return 'i'
            if c[:1] in 'b?':
                return 'b'
        if v.op == 'dtype':
            c = cval(v.args[0])
            return c
    return None


def axis_of(I, st, v):
    v = strip(v)
    if v is None or v is NONE:
        return None
    if isinstance(v, Term) and is_num_const(v):
        return int(cval(v))
    if isinstance(v, Tup) and all(is_num_const(x) for x in v.items):
        return tuple(int(cval(x)) for x in v.items)
    return 'opaque'


def flag(v, default=False):
    v = strip(v)
    if v is None:
        return default
    if isinstance(v, Term) and v.op == 'const':
        return bool(cval(v))
    return default


def opaque(I, st, name, args, shape=None, dtype=None):
    t = ar.ext(name, [a if isinstance(a, Term) else tt(I, st, a) for a in args], shape)
    return I.new_arr(st, t, dtype)


def put(I, st, out, r, node, dtype=None):
    """Result r, into out if given."""
    if isinstance(out, Tup) and len(out.items) == 1:
        out = out.items[0]
    out = strip(out)
    if out is None or out is NONE:
        return I.new_arr(st, r, dtype)
    if isinstance(out, Ref) and isinstance(st.heap[out.loc], Arr):
        o = I.read(st, out)
        if r.shape is not None and o.shape is not None and not ar.same_shape(r.shape, o.shape):
            ar.issue('out', a=o.shape, b=r.shape)
        I.write(st, out, r, node, dtype)
        return out
    return I.new_arr(st, r, dtype)


def names_of_method(names):
    return set(names.split())


ARR_METHODS = names_of_method(
    'all any argmax argmin argpartition argsort astype byteswap choose clip compress conj conjugate copy cumprod '
    'cumsum diagonal dot dump dumps fill flatten getfield item itemset max mean min newbyteorder nonzero partition '
    'prod ptp put ravel repeat reshape resize round searchsorted setfield setflags sort squeeze std sum swapaxes take '
    'tobytes tofile tolist tostring trace transpose var view')
ARR_ATTRS = names_of_method('T base ctypes data dtype flags flat imag itemsize nbytes ndim real shape size strides')
LIST_METHODS = names_of_method('append clear copy count extend index insert pop remove reverse sort __len__')
DEQUE_METHODS = LIST_METHODS | names_of_method('appendleft extendleft popleft rotate maxlen')
DICT_METHODS = names_of_method('clear copy fromkeys get items keys pop popitem setdefault update values __len__')
STR_METHODS = set(dir(str))

RNG_METHODS = {
    'uniform': 'low= high= size=', 'rand': '*dims', 'randn': '*dims', 'randint': 'low high= size= dtype=',
    'choice': 'a size= replace= p=', 'normal': 'loc= scale= size=', 'standard_normal': 'size=',
    'random_sample': 'size=', 'random': 'size=', 'permutation': 'x', 'shuffle': 'x', 'dirichlet': 'alpha size=',
    'exponential': 'scale= size=', 'standard_exponential': 'size=', 'beta': 'a b size=', 'gamma': 'shape scale= size=',
    'multinomial': 'n pvals size=', 'seed': 'seed=', 'binomial': 'n p size=', 'random_integers': 'low high= size=',
    'multivariate_normal': 'mean cov size= check_valid= tol=', 'poisson': 'lam= size=', 'get_state': 'legacy=',
    'integers': 'low high= size= dtype= endpoint=', 'set_state': 'state'}

# external classes: constructor signature, methods {name: signature}, attributes after fit
XCLASSES = {
    'KMeans': ('n_clusters= * init= n_init= max_iter= tol= verbose= random_state= copy_x= algorithm=',
               {'fit': 'X y= sample_weight=', 'fit_predict': 'X y= sample_weight=', 'predict': 'X',
                'fit_transform': 'X y= sample_weight=', 'transform': 'X', 'score': 'X y= sample_weight=',
                'get_params': 'deep=', 'set_params': '**kw'},
               names_of_method('labels_ cluster_centers_ inertia_ n_iter_ n_features_in_')),
    'SVC': ('* C= kernel= degree= gamma= coef0= shrinking= probability= tol= cache_size= class_weight= verbose= '
            'max_iter= decision_function_shape= break_ties= random_state=',
            {'fit': 'X y sample_weight=', 'predict': 'X', 'score': 'X y sample_weight=', 'decision_function': 'X',
             'get_params': 'deep=', 'set_params': '**kw'},
            names_of_method('support_ support_vectors_ n_support_ dual_coef_ intercept_ classes_ fit_status_')),
    'Variable': ('shape= name= var_id= **kw', {}, names_of_method('value T shape size ndim')),
    'expr': ('', {}, names_of_method('value T shape size ndim')),
    'Minimize': ('expr', {}, names_of_method('value expr args')),
    'Problem': ('objective constraints=', {'solve': 'solver= warm_start= verbose= gp= qcp= requires_grad= '
                                           'enforce_dpp= ignore_dpp= canon_backend= **kw',
                                           'variables': '', 'parameters': '', 'constants': ''},
                names_of_method('status value objective constraints solver_stats size_metrics')),
    'csr': ('', {'toarray': '', 'dot': 'other', 'todense': '', 'tocsc': '', 'tocsr': '', 'transpose': '', 'copy': ''},
            names_of_method('T shape nnz data indices indptr dtype ndim')),
}


# ------------------------------------------------------------------ attributes

def arr_attr(I, st, ref, c, name, node):
    t = I.read(st, ref)
    if name == 'T':
        if t.shape is not None and len(t.shape) < 2:
            return ref
        if t.shape is None:
            return I.new_arr(st, ar.ext('T', (t,)), c.dtype)
        from .interp import compose
        if ref.path and ref.path[-1] == ('T',):
            return Ref(ref.loc, ref.path[:-1])
        return Ref(ref.loc, ref.path + (('T',),))
    r = _arr_attr_term(I, st, t, name, c.dtype, node)
    if r is not None:
        return r
    if name in ('real',):
        return ref
    if name == 'flat':
        return BMeth(ref, 'flat')
    if name in ARR_METHODS:
        return BMeth(ref, name)
    if name in ARR_ATTRS:
        return ar.ext('attr:' + name, (t,))
    I.event(st, 'noattr', node, name=name, obj='ndarray')
    from .interp import DeadPath
    raise DeadPath()


def _arr_attr_term(I, st, t, name, dtype, node):
    if name == 'shape':
        if t.shape is None:
            return ar.ext('shape', (t,))
        return Tup(t.shape)
    if name == 'ndim':
        return const(len(t.shape)) if t.shape is not None else ar.ext('ndim', (t,), ())
    if name == 'size':
        if t.shape is None:
            return intern('size', (t,), ())
        n = ONE
        for d in t.shape:
            n = s_mul(n, d)
        return n
    if name == 'dtype':
        if dtype is None:
            return ar.ext('dtypeof', (t,), ())
        return intern('dtype', (const(dtype),), ())
    return None


def term_attr(I, st, v, name, node):
    from .interp import DeadPath
    if v.op == 'const' and cval(v) is None:
        I.event(st, 'noattr', node, name=name, obj='None')
        raise DeadPath()
    if v.op == 'const' and isinstance(cval(v), str) or tm.meta(v).get('kind') == 'str' or \
            v.op == 'ext' and v.args[0] == 'str':
        if name in STR_METHODS:
            return BMeth(v, name)
        I.event(st, 'noattr', node, name=name, obj='str')
        raise DeadPath()
    if v.shape == () and v.op != 'ext' and tm.meta(v).get('kind') != 'any':
        r = _arr_attr_term(I, st, v, name, 'i' if prove.is_int(v) else 'f', node)
        if r is not None:
            return r
    if v.shape:
        if name == 'T':
            return ar.T(v) if len(v.shape) == 2 else v
        r = _arr_attr_term(I, st, v, name, None, node)
        if r is not None:
            return r
    if v.op == 'dtype' and name in ('kind', 'char', 'name', 'type'):
        return ar.ext('dtype.' + name, (v,), ())
    if v.shape == () and v.op != 'ext' and tm.meta(v).get('kind') != 'any':
        if name not in ARR_METHODS and name not in ARR_ATTRS and name not in ('is_integer', 'real', 'imag'):
            I.event(st, 'noattr', node, name=name, obj='number')
            raise DeadPath()
    if tm.meta(v).get('kind') == 'any' and name == 'size':
        return ar.ext('attr:size', (v,), ())
    return BMeth(v, name)


def xattr(I, st, ref, c, name, node):
    from .interp import DeadPath
    cls = c.cls
    if name in c.attrs:
        return c.attrs[name]
    spec = XCLASSES.get(cls)
    if spec is None:
        return BMeth(ref, name)
    if name in spec[1]:
        return BMeth(ref, name)
    if cls in ('KMeans', 'SVC'):
        if name in spec[2]:
            I.event(st, 'noattr', node, name=name, obj='unfitted ' + cls)
            raise DeadPath()
    elif cls == 'Problem':
        if name == 'status':
            o = I.options.get('lp_status')
            return const(o) if o is not None else ar.ext('lpstatus', (c.term,), ())
        if name == 'value':
            return ar.ext('lpobj', (c.term,), ())
    elif cls in ('Variable', 'expr'):
        if name == 'T':
            return ref
        if name == 'value':
            p = I.lp_solved(st)
            if p is None:
                return NONE
            o = I.options.get('lp_status')
            if o is not None and o not in ('optimal', 'optimal_inaccurate', 'user_limit'):
                return NONE
            sh = c.attrs.get('__shape__')
            return I.new_arr(st, intern('lpvalue', (p, c.term), sh.items if isinstance(sh, Tup) else None), 'f')
    if name in spec[2]:
        if name == 'shape' and c.term.shape is not None:
            return Tup(c.term.shape)
        return ar.ext('xattr:' + name, (c.term,))
    I.event(st, 'noattr', node, name=name, obj=cls)
    raise DeadPath()


def xsubscript(I, st, ref, c, ix, node):
    t = ar.ext('xindex', (c.term,) + tuple(x for e in ix for x in e if isinstance(x, Term)))
    return I.alloc(st, XObj('expr' if c.cls in ('Variable', 'expr') else c.cls, {}, t), 'x')


def xbinop(I, st, op, a, b):
    """Arithmetic or comparison with an object of an external class; None if neither is one."""
    def xo(v):
        v = strip(v)
        return isinstance(v, Ref) and isinstance(st.heap[v.loc], XObj)
    if not xo(a) and not xo(b):
        return None
    t = ar.ext('x' + op, (tt(I, st, a), tt(I, st, b)), ())
    return I.alloc(st, XObj('expr', {}, t), 'x')


NUMPY_CONSTS = {'nan': float('nan'), 'inf': float('inf'), 'Inf': float('inf'), 'NaN': float('nan'),
                'NAN': float('nan'), 'infty': float('inf'), 'NINF': float('-inf')}
NAN = tm.atom('NaN', (), kind='float')
PI = tm.atom('pi', (), kind='float', lo=3, hi=4)


def ext_attr(I, st, v, name, node):
    full = v.name + '.' + name
    if v.name == 'numpy':
        if name in ('nan', 'NaN', 'NAN'):
            return NAN
        if name in NUMPY_CONSTS:
            return const(NUMPY_CONSTS[name])
        if name == 'pi':
            return PI
        if name == 'newaxis':
            return NONE
    if v.name == 'math':
        if name == 'inf':
            return const(float('inf'))
        if name == 'nan':
            return NAN
        if name == 'pi':
            return PI
    return Ext(full)


# ------------------------------------------------------------------ calls

ALIASES = {
    'sklearn.utils.validation.check_array': 'sklearn.utils.check_array',
    'sklearn.utils.validation.check_random_state': 'sklearn.utils.check_random_state',
    'sklearn.cluster._kmeans.KMeans': 'sklearn.cluster.KMeans',
    'scipy.sparse.csr.csr_matrix': 'scipy.sparse.csr_matrix',
}

NP_MUTATORS = {'numpy.put_along_axis', 'numpy.put', 'numpy.place', 'numpy.putmask', 'numpy.copyto', 'numpy.fill_diagonal',
               'numpy.random.shuffle', 'numpy.add.at', 'numpy.subtract.at', 'numpy.multiply.at', 'numpy.divide.at',
               'numpy.maximum.at', 'numpy.minimum.at', 'numpy.ndarray.sort', 'numpy.ndarray.fill'}
PURE_PREFIX = ('numpy.', 'math.', 'numbers.', 'scipy.', 'itertools.', 'functools.', 'operator.', 'builtins.',
               'collections.', 'sklearn.')


IMPURE = {'builtins.id', 'builtins.hash', 'os.urandom', 'os.getpid', 'os.getenv', 'os.times', 'threading.get_ident',
          'threading.active_count', 'os.cpu_count', 'multiprocessing.cpu_count', 'builtins.input', 'platform.node',
          'tracemalloc.get_traced_memory', 'sys.getrefcount', 'gc.get_count'}
IMPURE_MODULES = ('random.', 'secrets.', 'uuid.', 'datetime.', 'os.environ', 'socket.', 'resource.')


def call_ext(I, st, name, args, kwargs, node):
    args = [strip(a) for a in args]
    kwargs = {k: strip(v) for k, v in kwargs.items()}
    name = ALIASES.get(name, name)
    if name not in ('builtins.print', 'builtins.isinstance', 'builtins.getattr', 'builtins.hasattr', 'builtins.type',
                    'builtins.enumerate', 'builtins.zip', 'copy.deepcopy', 'copy.copy'):
        for i, a in enumerate(args):
            if isinstance(a, Alt):
                def go(s2, x, i=i):
                    return call_ext(I, s2, name, args[:i] + [x] + args[i + 1:], kwargs, node)
                return I.split(st, a, go)
        for k, a in kwargs.items():
            if isinstance(a, Alt):
                def gok(s2, x, k=k):
                    kw = dict(kwargs)
                    kw[k] = x
                    return call_ext(I, s2, name, args, kw, node)
                return I.split(st, a, gok)
    if name.startswith('numpy.random.') and name.rsplit('.', 1)[-1] not in ('RandomState', 'default_rng', 'Generator',
                                                                             'SeedSequence'):
        I.event(st, 'global-rng', node, name=name)
        m = name.rsplit('.', 1)[-1]
        g = I.global_rng(st)
        if m in RNG_METHODS:
            return rng_call(I, st, g, m, args, kwargs, node)
    if name in IMPURE or name.startswith(IMPURE_MODULES):
        I.event(st, 'impure', node, what=name)
        return ar.ext('impure', (const(name), const(I.fresh('im'))), ())
    entry = FN.get(name)
    if entry is None:
        if name.startswith('builtins.') and name.endswith(('Error', 'Exception', 'Warning', 'Iteration')):
            return ar.ext('exc', (const(name),) + tuple(tt(I, st, a) for a in args), ())
        I.event(st, 'unmodelled', node, name=name)
        out = kwargs.get('out')
        r = ar.ext(name, [tt(I, st, a) for a in args] + [y for k in sorted(kwargs) for y in
                                                         (const(k), tt(I, st, kwargs[k]))])
        # an unknown function may change the arrays it is given
        if not name.startswith(PURE_PREFIX) or name in NP_MUTATORS:
            for a in list(args) + list(kwargs.values()):
                if isinstance(a, Ref) and isinstance(st.heap[a.loc], Arr):
                    t = I.read(st, a)
                    I.write(st, a, ar.ext('touched:' + name, (t,), t.shape), node)
        if out is not None:
            return put(I, st, out, r, node)
        return I.new_arr(st, r)
    sig, f, _ = entry
    I.sync(st)
    p = bind_sig(I, st, name, sig, args, kwargs, node)
    r = f(I, st, node, p)
    I.drain_issues(st, node)
    if name.startswith('numpy.'):
        bad = overlooked(p)
        if bad:
            I.event(st, 'unmodelled', node, name='%s(%s=)' % (name, bad[0]))
            r = ar.ext(name, [tt(I, st, a) for a in args] + [y for k in sorted(kwargs) if k != 'out' for y in
                                                             (const(k), tt(I, st, kwargs[k]))])
            return put(I, st, p.out, r, node) if p.out is not None else I.new_arr(st, r)
    return r


def order_of(v):
    """'C', 'F' or None when it is not known (or depends on the memory layout)."""
    if v is None or v is NONE:
        return 'C'
    return cval(v) if isinstance(v, Term) and tm.is_const(v) and cval(v) in ('C', 'F') else None


def reversed_axes(t):
    if t.shape is None:
        return None
    if len(t.shape) < 2:
        return t
    return ar.T(t) if len(t.shape) == 2 else ar.transpose_axes(t, tuple(reversed(range(len(t.shape)))))


def call_term(I, st, t, args, kwargs, node):
    if t.op == 'atom' and tm.meta(t).get('kind') == 'callable' and len(args) == 1 and not kwargs:
        x = tt(I, st, args[0])
        if x.shape is not None and x.shape:
            return I.new_arr(st, ar.ext('gram', (t, x), (x.shape[0], x.shape[0])), 'f')
    for a in list(args) + list(kwargs.values()):
        if isinstance(a, Ref) and isinstance(st.heap[a.loc], Arr):
            x = I.read(st, a)
            I.write(st, a, ar.ext('touched', (x, t), x.shape), node)
    I.event(st, 'unmodelled', node, name='call of %s' % tm.show(t, 2))
    return ar.ext('callterm', (t,) + tuple(tt(I, st, a) for a in args))


def call_bmeth(I, st, bm, args, kwargs, node):
    from .interp import DeadPath
    obj, name = strip(bm.obj), bm.name
    args = [strip(a) for a in args]
    kwargs = {k: strip(v) for k, v in kwargs.items()}
    for i, a in enumerate(args):
        if isinstance(a, Alt) and name not in ('append', 'get', 'format', 'setdefault', 'insert'):
            return I.split(st, a, lambda s2, x: call_bmeth(I, s2, bm, args[:i] + [x] + args[i + 1:], kwargs, node))
    for k, a in kwargs.items():
        if isinstance(a, Alt):
            def gok(s2, x, k=k):
                kw = dict(kwargs)
                kw[k] = x
                return call_bmeth(I, s2, bm, args, kw, node)
            return I.split(st, a, gok)
    if isinstance(obj, Ref):
        c = st.heap[obj.loc]
        if isinstance(c, Arr):
            return arr_method(I, st, obj, name, args, kwargs, node)
        if isinstance(c, Lst):
            return list_method(I, st, obj, c, name, args, kwargs, node)
        if isinstance(c, Dct):
            return dict_method(I, st, obj, c, name, args, kwargs, node)
        if isinstance(c, Rng):
            if name not in RNG_METHODS:
                I.event(st, 'noattr', node, name=name, obj='RandomState')
                raise DeadPath()
            return rng_call(I, st, obj, name, args, kwargs, node)
        if isinstance(c, XObj):
            return x_method(I, st, obj, c, name, args, kwargs, node)
        if isinstance(c, Obj):
            eb = c.cls.ext_base()
            I.event(st, 'unmodelled', node, name='%s.%s' % (eb.name if eb else '?', name))
            return ar.ext('xmethod', (const(name),) + tuple(tt(I, st, a) for a in args))
    if isinstance(obj, Term):
        if obj.shape or (obj.shape == () and obj.op != 'ext' and tm.meta(obj).get('kind') in (None, 'int', 'float') and
                         not (obj.op == 'const' and isinstance(cval(obj), str))):
            if name in ARR_METHODS:
                tmp = I.alloc(st, Arr(obj, None, None), 'a')
                return arr_method(I, st, tmp, name, args, kwargs, node)
        if name in STR_PURE and obj.op == 'const' and isinstance(cval(obj), str) and not kwargs and all(
                isinstance(a, Term) and a.op == 'const' and isinstance(cval(a), (str, int)) for a in args):
            try:
                r = getattr(cval(obj), name)(*[cval(a) for a in args])
            except TypeError:
                r = None
            if isinstance(r, (str, bool, int)):
                return const(r)
        if name == 'format' or (obj.op == 'const' and isinstance(cval(obj), str)) or tm.meta(obj).get('kind') == 'str':
            return ar.ext('str', (obj, const(name)) + tuple(tt(I, st, a) for a in args) +
                          tuple(tt(I, st, kwargs[k]) for k in sorted(kwargs)), ())
        if name == 'is_integer':
            return const(True) if prove.is_int(obj) else ar.ext('cmp_isint', (obj,), ())
    if isinstance(obj, Tup):
        if name in ('index', 'count'):
            return ar.ext('tuple.' + name, (tt(I, st, obj),) + tuple(tt(I, st, a) for a in args), ())
        I.event(st, 'noattr', node, name=name, obj='tuple')
        raise DeadPath()
    if isinstance(obj, BMeth) and obj.name == 'flat':
        return ar.ext('flat', ())
    I.event(st, 'unmodelled', node, name='method %s' % name)
    return ar.ext('method:' + name, (tt(I, st, obj),) + tuple(tt(I, st, a) for a in args))


# ------------------------------------------------------------------ array methods

METHOD_FN = {
    # array method -> (function with the array first)
    'sum': 'numpy.sum', 'mean': 'numpy.mean', 'max': 'numpy.max', 'min': 'numpy.min', 'prod': 'numpy.prod',
    'trace': 'numpy.trace', 'diagonal': 'numpy.diagonal', 'dot': 'numpy.dot', 'all': 'numpy.all', 'any': 'numpy.any',
    'argmax': 'numpy.argmax', 'argmin': 'numpy.argmin', 'clip': 'numpy.clip', 'repeat': 'numpy.repeat',
    'std': 'numpy.std', 'var': 'numpy.var', 'cumsum': 'numpy.cumsum', 'argsort': 'numpy.argsort',
    'squeeze': 'numpy.squeeze', 'round': 'numpy.round', 'nonzero': 'numpy.nonzero', 'take': 'numpy.take',
    'swapaxes': 'numpy.swapaxes', 'conj': 'numpy.conj', 'cumprod': 'numpy.cumprod', 'ptp': 'numpy.ptp',
}


def arr_method(I, st, ref, name, args, kwargs, node):
    t = I.read(st, ref)
    c = st.heap[ref.loc]
    if name == 'copy' or name == 'astype' or name == 'flatten':
        d = c.dtype
        if name == 'astype':
            d = dt(I, st, args[0] if args else kwargs.get('dtype')) or d
            cp = kwargs.get('copy')
            if cp is not None and not flag(cp, True):
                return ref
            if c.dtype == 'f' and d == 'i':
                t = ar.toint(t)
        if name == 'flatten':
            o = order_of(args[0] if args else kwargs.get('order'))
            if o is None or t.shape is None:
                return I.new_arr(st, ar.ext('flatten', (t,)), d)
            t = _ravel(t if o == 'C' else reversed_axes(t))
        return I.alloc(st, Arr(t, None, d), 'a')
    if name == 'ravel':
        o = order_of(args[0] if args else kwargs.get('order'))
        if t.shape is None or o is None:
            return I.new_arr(st, ar.ext('ravel', (t,)), c.dtype)
        n = ONE
        for d in t.shape:
            n = s_mul(n, d)
        if len(t.shape) == 1:
            return ref
        if o == 'F':
            return I.alloc(st, Arr(_ravel(reversed_axes(t)), None, c.dtype), 'a')
        return Ref(ref.loc, ref.path + (('reshape', (n,)),))
    if name == 'reshape':
        v = args[0] if len(args) == 1 else Tup(args)
        if not args and 'shape' in kwargs:
            v = kwargs['shape']
        return reshape_ref(I, st, ref, v, node, order_of(kwargs.get('order')))
    if name == 'transpose':
        if t.shape is None:
            return I.new_arr(st, ar.ext('transpose', (t,)), c.dtype)
        if not args or args[0] is NONE:
            return arr_attr(I, st, ref, c, 'T', node)
        v = args[0] if len(args) == 1 and not isinstance(args[0], Term) else Tup(args)
        p = shp(I, st, v)
        if p is not None and all(is_num_const(x) for x in p):
            perm = tuple(ar.norm_axis(int(cval(x)), len(t.shape)) for x in p)
            return Ref(ref.loc, ref.path + (('perm', perm),))
    if name == 'fill':
        v = tt(I, st, args[0])
        I.write(st, ref, ar.full(t.shape, v) if t.shape is not None else ar.ext('fill', (t, v)), node)
        return NONE
    if name == 'item':
        if not args and t.shape is not None and all(ar.is_one(d) for d in t.shape):
            return ar.index(t, tuple(('i', ZERO) for _ in t.shape))
        return ar.ext('item', (t,) + tuple(tt(I, st, a) for a in args), ())
    if name == 'tolist':
        c2 = ar.to_carr(t) if t.shape is not None and len(t.shape) == 1 else None
        if c2 is not None:
            return I.alloc(st, Lst(tuple(c2.args[0])), 'l')
        return I.alloc(st, Lst(None, t), 'l')
    if name == 'sort':
        call = call_ext(I, st, 'numpy.sort', [ref] + list(args), dict(kwargs), node)
        I.write(st, ref, tt(I, st, call), node)
        return NONE
    if name == 'view':
        return ref
    if name in ('partition', 'put', 'resize', 'setflags', 'setfield', 'itemset'):
        I.write(st, ref, ar.ext('touched:' + name, (t,), t.shape), node)
        return NONE
    f = METHOD_FN.get(name)
    if f is not None:
        return call_ext(I, st, f, [ref] + list(args), kwargs, node)
    if name in ARR_METHODS:
        I.event(st, 'unmodelled', node, name='ndarray.' + name)
        return ar.ext('ndarray.' + name, (t,) + tuple(tt(I, st, a) for a in args))
    I.event(st, 'noattr', node, name=name, obj='ndarray')
    from .interp import DeadPath
    raise DeadPath()


def _ravel(t):
    if t.shape is None:
        return ar.ext('ravel', (t,))
    n = ONE
    for d in t.shape:
        n = s_mul(n, d)
    return ar.reshape(t, (n,)) if len(t.shape) != 1 else t


def fix_minus_one(t, shape):
    """Resolve one -1 in a reshape."""
    if t.shape is None:
        return shape
    neg = [i for i, d in enumerate(shape) if is_num_const(d) and cval(d) == -1]
    if len(neg) != 1:
        return shape
    tot = ONE
    for d in t.shape:
        tot = s_mul(tot, d)
    rest = ONE
    for i, d in enumerate(shape):
        if i != neg[0]:
            rest = s_mul(rest, d)
    out = list(shape)
    out[neg[0]] = s_div(tot, rest)
    return tuple(out)


def reshape_ref(I, st, ref, v, node, order='C'):
    t = I.read(st, ref)
    c = st.heap[ref.loc]
    sh = shp(I, st, v)
    if sh is None or t.shape is None or order is None:
        return I.new_arr(st, ar.ext('reshape', (t, tt(I, st, v)), sh), c.dtype)
    sh = fix_minus_one(t, sh)
    if ar.same_shape(sh, t.shape):
        return ref
    n1 = n2 = ONE
    for d in t.shape:
        n1 = s_mul(n1, d)
    for d in sh:
        n2 = s_mul(n2, d)
    if not ar.dim_eq(n1, n2):
        ar.issue('reshape', a=t.shape, b=sh)
    if order == 'F' and (len(sh) > 1 or len(t.shape) > 1):
        if len(t.shape) > 1:
            ref = I.alloc(st, Arr(reversed_axes(t), None, c.dtype), 'a')
        ref = Ref(ref.loc, ref.path + (('reshape', tuple(reversed(sh))),))
        return Ref(ref.loc, ref.path + (('perm', tuple(reversed(range(len(sh))))),)) if len(sh) > 1 else ref
    return Ref(ref.loc, ref.path + (('reshape', tuple(sh)),))


# ------------------------------------------------------------------ lists and dicts

def list_method(I, st, ref, c, name, args, kwargs, node):
    from .interp import DeadPath
    ok = DEQUE_METHODS if c.kind == 'deque' else LIST_METHODS
    if name not in ok:
        I.event(st, 'noattr', node, name=name, obj=c.kind)
        raise DeadPath()

    def setl(items=None, sym=None):
        I.event(st, 'mutate', node, loc=ref.loc, origin=c.origin, term=None, old=None)
        st.heap[ref.loc] = Lst(items, sym, c.maxlen, c.kind, c.origin)
        al = st.heap.get(('alias', ref.loc))
        if al:
            for q in al:
                if q in st.heap and isinstance(st.heap[q], Lst):
                    d = st.heap[q]
                    st.heap[q] = Lst(None, ar.ext('mayalias', (const(I.fresh('ma')),)), d.maxlen, d.kind, d.origin)
    n = c.maxlen
    base = c.sym if c.sym is not None else NONE
    if name == 'append' or name == 'appendleft':
        v = args[0]
        if c.items is not None:
            items = c.items + (v,) if name == 'append' else (v,) + c.items
            if n is not None and is_num_const(n) and len(items) > cval(n):
                items = items[len(items) - int(cval(n)):] if name == 'append' else items[:int(cval(n))]
            elif n is not None and not is_num_const(n):
                setl(None, ar.ext('deque', (base, tt(I, st, v))))
                return NONE
            setl(items)
        else:
            setl(None, ar.ext(name, (base, tt(I, st, v))))
        return NONE
    if name in ('pop', 'popleft'):
        if c.items is not None:
            i = ZERO if name == 'popleft' else (args[0] if args else const(-1))
            if isinstance(i, Term) and is_num_const(i):
                k = int(cval(i))
                if not -len(c.items) <= k < len(c.items):
                    I.event(st, 'indexerror', node, index=k, length=len(c.items))
                    raise DeadPath()
                items = list(c.items)
                v = items.pop(k)
                setl(tuple(items))
                return v
        v = ar.ext('popped', (base, const(name)) + tuple(tt(I, st, a) for a in args))
        setl(None, ar.ext('pop', (base,) + tuple(tt(I, st, a) for a in args)))
        return v
    if name in ('extend', 'extendleft'):
        items = I.concrete_items(st, args[0])
        if c.items is not None and items is not None and n is None and name == 'extend':
            setl(c.items + tuple(items))
        else:
            setl(None, ar.ext('extend', (base, tt(I, st, args[0]))))
        return NONE
    if name == 'insert':
        if c.items is not None and is_num_const(args[0]):
            items = list(c.items)
            items.insert(int(cval(args[0])), args[1])
            setl(tuple(items))
        else:
            setl(None, ar.ext('insert', (base, tt(I, st, args[1]))))
        return NONE
    if name == 'clear':
        setl(())
        return NONE
    if name == 'copy':
        return I.alloc(st, Lst(c.items, c.sym, c.maxlen, c.kind), 'l')
    if name == 'reverse':
        setl(c.items[::-1] if c.items is not None else None, ar.ext('reverse', (base,)) if c.items is None else None)
        return NONE
    if name == 'maxlen':
        return c.maxlen or NONE
    if name == 'sort':
        if c.items is not None and len(c.items) <= 1:
            return NONE
        sym = I.arr(st, ref)
        key = kwargs.get('key')
        kt = tt(I, st, key) if key is not None else NONE
        if sym is not None and sym.shape is not None:
            setl(None, intern('lsort', (sym, kt), sym.shape))
        else:
            setl(None, ar.ext('sort', (base, kt)))
        return NONE
    if name in ('index', 'count', '__len__'):
        return intern('size', (tt(I, st, ref), const(name)) + tuple(tt(I, st, a) for a in args), ())
    setl(None, ar.ext(name, (base,) + tuple(tt(I, st, a) for a in args)))
    return NONE


def dict_method(I, st, ref, c, name, args, kwargs, node):
    from .interp import DeadPath
    if name not in DICT_METHODS:
        I.event(st, 'noattr', node, name=name, obj='dict')
        raise DeadPath()
    if name in ('get', 'pop', 'setdefault'):
        k = args[0]
        default = args[1] if len(args) > 1 else kwargs.get('default', NONE if name != 'pop' else None)
        if isinstance(k, Term) and k.op == 'const':
            key = cval(k)
            I.event(st, 'dict-get', node, loc=ref.loc, key=key)
            if key in c.items:
                v = c.items[key]
                if name == 'pop':
                    d = dict(c.items)
                    del d[key]
                    st.heap[ref.loc] = Dct(d, c.origin, c.open)
                if isinstance(v, MaybeU):
                    if default is None:
                        return v.v
                    return Alt(ar.ext('haskey', (k, const(str(ref.loc))), ()), v.v, default)
                return v
            if not c.open:
                if default is None:
                    I.event(st, 'keyerror', node, key=key)
                    raise DeadPath()
                if name == 'setdefault':
                    d = dict(c.items)
                    d[key] = default
                    st.heap[ref.loc] = Dct(d, c.origin, c.open)
                return default
        return ar.ext('dictget', (tt(I, st, ref), tt(I, st, k)) + ((tt(I, st, default),) if default is not None else ()))
    if name in ('items', 'values', 'keys'):
        if name == 'keys':
            return ref
        return SeqV(name, [ref])
    if name == 'copy':
        return I.alloc(st, Dct(dict(c.items), None, c.open), 'd')
    I.event(st, 'mutate', node, loc=ref.loc, origin=c.origin, term=None, old=None)
    if name == 'update':
        d = dict(c.items)
        open_ = c.open
        if args:
            o = args[0]
            if isinstance(o, Ref) and isinstance(st.heap[o.loc], Dct):
                d.update(st.heap[o.loc].items)
                open_ = open_ or st.heap[o.loc].open
            else:
                open_ = True
        d.update(kwargs)
        st.heap[ref.loc] = Dct(d, c.origin, open_)
        return NONE
    if name == 'clear':
        st.heap[ref.loc] = Dct({}, c.origin, False)
        return NONE
    return ar.ext('dict.' + name, (tt(I, st, ref),))


# ------------------------------------------------------------------ random numbers

def rng_call(I, st, ref, name, args, kwargs, node):
    sig = sig_of(RNG_METHODS[name])
    p = bind_sig(I, st, name, sig, args, kwargs, node)
    c = st.heap[ref.loc]
    s = c.term
    if name in ('rand', 'randn'):
        size = tuple(p.get('*') or ())
        sh = shp(I, st, Tup(size)) if size else ()
        params = ()
    else:
        size = p.get('size')
        if size is None or size is NONE:
            sh = ()
        else:
            sh = shp(I, st, size)
        params = tuple(tt(I, st, p.get(k)) for k in sig[0] if k not in ('size', 'dtype') and k in p)
    canon = {'rand': 'uniform', 'random_sample': 'uniform', 'random': 'uniform', 'randn': 'normal',
             'standard_normal': 'normal', 'integers': 'randint', 'standard_exponential': 'exponential'}.get(name, name)
    if name in ('shuffle', 'permutation'):
        x = p.get('x')
        xt = tt(I, st, x)
        st.heap[ref.loc] = Rng(intern('next', (name, s, (xt,) + (xt.shape or ())), ()))
        sh1 = xt.shape if xt.shape else (xt,)
        r = intern('draw', ('permutation', s, (xt,)), sh1)
        if name == 'shuffle':
            if isinstance(x, Ref) and isinstance(st.heap[x.loc], Arr):
                I.write(st, x, r, node)
            return NONE
        return I.new_arr(st, r, 'i' if not xt.shape else I.dtype(st, x))
    if name == 'seed':
        st.heap[ref.loc] = Rng(intern('seed', (tt(I, st, p.get('seed')),), ()))
        return NONE
    if name == 'choice':
        a = params[0]
        if sh is None:
            sh = None
        if a.shape == ():
            r = intern('draw', ('choice', s, params + ((sh,) if sh is not None else ())), sh)
            dtyp = 'i'
        else:
            r = intern('draw', ('choicefrom', s, params + ((sh,) if sh is not None else ())), sh)
            dtyp = I.dtype(st, p.get('a'))
    elif name == 'randint' or name == 'integers' or name == 'random_integers':
        lo, hi = (ZERO, params[0]) if len(params) < 2 or params[1] is NONE else params[:2]
        if name == 'random_integers':
            hi = s_add(hi, ONE)
        r = intern('draw', ('randint', s, (lo, hi) + ((sh,) if sh else ())), sh)
        dtyp = 'i'
    else:
        if name == 'dirichlet' and sh is not None:
            al = params[0]
            sh = tuple(sh) + (al.shape[0] if al.shape else ONE,)
        r = intern('draw', (canon, s, params + ((sh,) if sh is not None else ())), sh)
        dtyp = 'f'
    st.heap[ref.loc] = Rng(intern('next', (canon, s, params + ((sh,) if sh is not None else ())), ()))
    I.event(st, 'draw', node, state=s, method=name)
    return I.new_arr(st, r, dtyp)


# ------------------------------------------------------------------ external objects

def x_method(I, st, ref, c, name, args, kwargs, node):
    from .interp import DeadPath
    spec = XCLASSES.get(c.cls)
    if spec is None:
        I.event(st, 'unmodelled', node, name='%s.%s' % (c.cls, name))
        return ar.ext('xmethod:' + name, (c.term,) + tuple(tt(I, st, a) for a in args))
    if name not in spec[1]:
        I.event(st, 'noattr', node, name=name, obj=c.cls)
        raise DeadPath()
    p = bind_sig(I, st, '%s.%s' % (c.cls, name), sig_of(spec[1][name]), args, kwargs, node)
    if c.cls == 'KMeans':
        return kmeans_method(I, st, ref, c, name, p, node)
    if c.cls == 'SVC':
        if name == 'fit':
            rs = c.attrs.get('random_state', NONE)
            X, y = tt(I, st, p.X), tt(I, st, p.y)
            same_len(X, y, 'SVC.fit')
            t = intern('svcfit', (c.term, X, y, tt(I, st, p.sample_weight)), ())
            at = dict(c.attrs)
            at['__fit__'] = t
            st.heap[ref.loc] = XObj(c.cls, at, c.term)
            return ref
        fit = c.attrs.get('__fit__')
        if fit is None:
            I.event(st, 'unfitted', node, name='SVC.' + name)
            raise DeadPath()
        X = tt(I, st, p.X)
        if name == 'predict':
            return I.new_arr(st, intern('svcpredict', (fit, X), (X.shape[0],) if X.shape else None), 'i')
        return ar.ext('svc.' + name, (fit, X))
    if c.cls == 'Problem':
        if name == 'solve':
            st.heap[('lp',)] = Frame({'p': c.term})
            return ar.ext('lpobj', (c.term,), ())
        if name == 'variables':
            v = c.attrs.get('__var__')
            return I.alloc(st, Lst((v,) if v is not None else None), 'l')
    if c.cls == 'csr' and name == 'dot':
        return xbinop(I, st, 'MatMult', ref, p.other)
    return I.alloc(st, XObj(c.cls, dict(c.attrs), ar.ext('xm:' + name, (c.term,))), 'x')


def same_len(X, y, what):
    if X.shape and y.shape and not ar.dim_eq(X.shape[0], y.shape[0]):
        ar.issue(what, a=X.shape, b=y.shape)


def kmeans_method(I, st, ref, c, name, p, node):
    from .interp import DeadPath
    X = tt(I, st, p.X)
    if X.shape is not None and len(X.shape) != 2:
        ar.issue('KMeans.' + name, a=X.shape, b=())
    n = X.shape[0] if X.shape else None
    K = c.attrs.get('n_clusters', const(8))
    if name in ('fit', 'fit_predict', 'fit_transform'):
        if K is NONE:
            I.event(st, 'none-operand', node)
            raise DeadPath()
        if c.attrs.get('copy_x') is const(False) and isinstance(p.X, Ref) and isinstance(st.heap[p.X.loc], Arr):
            xc = st.heap[p.X.loc]
            I.event(st, 'mutate', node, loc=p.X.loc, origin=xc.origin, term=None, old=xc.term, may=True)
        rs = c.attrs.get('random_state', NONE)
        if rs is NONE:
            seed = I.alloc(st, Rng(I.global_state(st)), 'g')
            I.event(st, 'global-rng', node, name='KMeans(random_state=None)')
            sterm = I.global_state(st)
            I.advance_global(st, 'kmeans')
        elif isinstance(rs, Ref) and isinstance(st.heap[rs.loc], Rng):
            sterm = st.heap[rs.loc].term
            st.heap[rs.loc] = Rng(intern('next', ('kmeans', sterm, (X, K)), ()))
        else:
            sterm = intern('seed', (tt(I, st, rs),), ())
        I.event(st, 'draw', node, state=sterm, method='KMeans.' + name)
        sw = tt(I, st, p.sample_weight)
        pr = tuple((k, tt(I, st, v)) for k, v in sorted(c.attrs.items()) if not k.startswith('__') and
                   not k.endswith('_') and k not in ('random_state', 'verbose', 'n_clusters'))
        km = intern('kmeans', (X, tt(I, st, K), sw, sterm, pr), ())
        at = {k: v for k, v in c.attrs.items() if not k.endswith('_')}
        at['__fit__'] = km
        at['labels_'] = I.alloc(st, Arr(intern('kmlabels', (km,), (n,) if n is not None else None), None, 'i'), 'a')
        at['cluster_centers_'] = I.alloc(st, Arr(intern('kmcenters', (km,), (tt(I, st, K), X.shape[1]) if X.shape and
                                                        len(X.shape) == 2 else None), None, 'f'), 'a')
        at['inertia_'] = intern('kminertia', (km,), ())
        at['n_iter_'] = intern('kmniter', (km,), ())
        st.heap[ref.loc] = XObj(c.cls, at, c.term)
        if name == 'fit':
            return ref
        if name == 'fit_predict':
            return at['labels_']
    else:
        km = c.attrs.get('__fit__')
        if km is None:
            I.event(st, 'unfitted', node, name='KMeans.' + name)
            raise DeadPath()
    K = tt(I, st, st.heap[ref.loc].attrs.get('n_clusters', const(8)))
    if name == 'predict':
        return I.new_arr(st, intern('kmpredict', (km, X), (n,) if n is not None else None), 'i')
    if name in ('transform', 'fit_transform'):
        return I.new_arr(st, intern('kmtransform', (km, X), (n, K) if n is not None else None), 'f')
    return ar.ext('km.' + name, (km, X), ())


def make_x(I, st, cls, p, kw=None):
    attrs = {k: v for k, v in p.items() if k not in ('*', '@')}
    t = ar.ext('x:' + cls, [y for k in sorted(attrs) if k != 'verbose' for y in (const(k), tt(I, st, attrs[k]))], ())
    return I.alloc(st, XObj(cls, attrs, t), 'x')


@fn('sklearn.cluster.KMeans', XCLASSES['KMeans'][0])
def _kmeans(I, st, node, p):
    return make_x(I, st, 'KMeans', p)


@fn('sklearn.svm.SVC', XCLASSES['SVC'][0])
def _svc(I, st, node, p):
    return make_x(I, st, 'SVC', p)


@fn('cvxpy.Variable', XCLASSES['Variable'][0])
def _cpvar(I, st, node, p):
    sh = shp(I, st, p.shape) if p.shape is not None else ()
    st.heap[('lp',)] = Frame({'p': None})
    t = ar.ext('x:Variable', (const(I.fresh_once('var')),) + tuple(sh or ()), sh)
    at = {'__shape__': Tup(sh)} if sh is not None else {}
    for k in ('nonneg', 'pos', 'integer', 'boolean'):
        if k in p:
            at[k] = p[k]
            t = ar.ext('x:Variable', t.args[1] + (const(k), tt(I, st, p[k])), sh)
    return I.alloc(st, XObj('Variable', at, t), 'x')


@fn('cvxpy.Minimize cvxpy.Maximize', 'expr')
def _cpmin(I, st, node, p):
    return I.alloc(st, XObj('Minimize', {}, ar.ext('x:Minimize', (tt(I, st, p.expr),), ())), 'x')


@fn('cvxpy.Problem', XCLASSES['Problem'][0])
def _cpprob(I, st, node, p):
    cons = I.concrete_items(st, p.constraints) if p.constraints is not None else []
    t = ar.ext('x:Problem', (tt(I, st, p.objective),) + tuple(tt(I, st, x) for x in (cons or [])), ())
    var = None
    for loc, c in st.heap.items():
        if isinstance(c, XObj) and c.cls == 'Variable' and any(u is c.term for u in tm.subterms(t)):
            var = Ref(loc)
    return I.alloc(st, XObj('Problem', {'__var__': var} if var is not None else {}, t), 'x')


@fn('cvxpy.sum', 'expr axis= keepdims=')
def _cpsum(I, st, node, p):
    return I.alloc(st, XObj('expr', {}, ar.ext('xsum', (tt(I, st, p.expr), tt(I, st, p.axis)), ())), 'x')


@fn('scipy.sparse.csr_matrix scipy.sparse.csc_matrix scipy.sparse.coo_matrix scipy.sparse.csr_array',
    'arg1 shape= dtype= copy=')
def _csr(I, st, node, p):
    v = p.arg1
    sh = shp(I, st, p.shape) if p.shape is not None else None
    if isinstance(v, Tup) and len(v.items) == 2 and isinstance(v.items[1], Tup):
        d = tt(I, st, v.items[0])
        r, c = (tt(I, st, x) for x in v.items[1].items)
        for x, y in ((d, r), (d, c)):
            if x.shape and y.shape and not ar.dim_eq(x.shape[0], y.shape[0]):
                ar.issue('csr_matrix', a=x.shape, b=y.shape)
        t = intern('csr', (d, r, c), sh)
    else:
        t = intern('csr', (tt(I, st, v),), sh)
    return I.alloc(st, XObj('csr', {}, t), 'x')


# ------------------------------------------------------------------ builtins

@fn('builtins.print', '*args sep= end= file= flush=')
def _print(I, st, node, p):
    I.event(st, 'print', node)
    return NONE


@fn('builtins.object.__init__', '*args **kw')
def _objinit(I, st, node, p):
    return NONE


@fn('builtins.len', 'x')
def _len(I, st, node, p):
    v = p.x
    if isinstance(v, Tup):
        return const(len(v.items))
    if isinstance(v, RangeV):
        n = I.range_count(v)
        return n if n is not None else intern('len', (v.lo, v.hi, v.step), ())
    if isinstance(v, Ref):
        c = st.heap[v.loc]
        if isinstance(c, Lst):
            if c.items is not None:
                return const(len(c.items))
            if c.sym is not None and c.sym.shape:
                return c.sym.shape[0]
            return intern('len', (c.sym if c.sym is not None else const(str(v.loc)),), ())
        if isinstance(c, Dct):
            return const(len(c.items)) if not c.open else intern('len', (const(str(v.loc)),), ())
        if isinstance(c, Arr):
            t = I.read(st, v)
            if t.shape == ():
                I.event(st, 'shape', node, issue='len of a scalar', a=(), b=())
            return t.shape[0] if t.shape else intern('len', (t,), ())
    if isinstance(v, Term):
        if v.op == 'const' and isinstance(cval(v), str):
            return const(len(cval(v)))
        if v.shape:
            return v.shape[0]
        return intern('len', (v,), ())
    return intern('len', (tt(I, st, v),), ())


@fn('builtins.range', 'a b= c=')
def _range(I, st, node, p):
    def s(v):
        t = tt(I, st, v)
        if t is NONE:
            I.event(st, 'none-operand', node)
            from .interp import DeadPath
            raise DeadPath()
        return t
    if p.b is None:
        return RangeV(ZERO, s(p.a), ONE)
    return RangeV(s(p.a), s(p.b), s(p.c) if p.c is not None else ONE)


@fn('builtins.enumerate', 'iterable start=')
def _enum(I, st, node, p):
    return SeqV('enumerate', [p.iterable], tt(I, st, p.start) if p.start is not None else None)


@fn('builtins.zip', '*args strict=')
def _zip(I, st, node, p):
    return SeqV('zip', list(p.get('*') or []))


@fn('builtins.reversed', 'x')
def _rev(I, st, node, p):
    return SeqV('reversed', [p.x])


@fn('builtins.map', 'f x')
def _map(I, st, node, p):
    return SeqV('map', [p.x], p.f)


@fn('builtins.iter', 'x')
def _iter(I, st, node, p):
    return p.x


@fn('builtins.list builtins.tuple builtins.set builtins.frozenset', 'x=')
def _list(I, st, node, p):
    tup = p['@'] == 'tuple'
    if p.x is None:
        return Tup([]) if tup else I.alloc(st, Lst(()), 'l')
    items = I.concrete_items(st, p.x)
    if items is not None:
        return Tup(items) if tup else I.alloc(st, Lst(tuple(items)), 'l')
    n, el = I.symbolic_items(st, p.x, node)
    t = I.arr(st, p.x)
    if t is None or t.shape is None:
        t = ar.ext('list', (tt(I, st, p.x),), None)
    return I.alloc(st, Lst(None, t), 'l')


@fn('builtins.dict', 'x= **kw')
def _dict(I, st, node, p):
    d = {k: v for k, v in p.items() if k not in ('x', '*', '@')}
    open_ = False
    if p.x is not None:
        if isinstance(p.x, Ref) and isinstance(st.heap[p.x.loc], Dct):
            base = dict(st.heap[p.x.loc].items)
            base.update(d)
            d = base
            open_ = st.heap[p.x.loc].open
        else:
            open_ = True
    return I.alloc(st, Dct(d, None, open_), 'd')


@fn('builtins.abs math.fabs numpy.fabs', 'x')
def _abs(I, st, node, p):
    x = tt(I, st, p.x)
    if x is NONE:
        I.event(st, 'none-operand', node)
    return I.new_arr(st, ar.ew('abs', x), I.dtype(st, p.x))


@fn('numpy.abs numpy.absolute', 'x out= where= dtype=')
def _npabs(I, st, node, p):
    return put(I, st, p.out, ar.ew('abs', tt(I, st, p.x)), node, I.dtype(st, p.x))


@fn('builtins.max builtins.min', '*args key= default=')
def _bmax(I, st, node, p):
    nm = p['@']
    args = list(p.get('*') or [])
    if len(args) == 1:
        items = I.concrete_items(st, args[0])
        if items is None:
            t = tt(I, st, args[0])
            if t.shape is not None and len(t.shape) == 1:
                return _reduce_ext(t, nm, None)
            return intern('ext', (nm, (t,)), ())
        args = items
    ts = [tt(I, st, a) for a in args]
    if any(t is NONE for t in ts):
        I.event(st, 'none-operand', node)
        from .interp import DeadPath
        raise DeadPath()
    if not ts:
        return ar.ext('empty-max', (), ())
    if p.key is not None or any(t.shape != () for t in ts):
        return ar.ext(nm, ts + [tt(I, st, p.key)], ())
    I.sync(st)
    return ar.smax(ts) if nm == 'max' else ar.smin(ts)


@fn('builtins.sum math.fsum', 'iterable start=')
def _bsum(I, st, node, p):
    items = I.concrete_items(st, p.iterable)
    start = p.start if p.start is not None else ZERO
    if items is not None:
        acc = start
        for x in items:
            acc = I.binop(st, 'Add', acc, x, node)
        return acc
    t = tt(I, st, p.iterable)
    r = ar.reduce_sum(t, 0) if t.shape else ar.ext('sum', (t,), ())
    return I.new_arr(st, ar.add(r, tt(I, st, start)) if start is not ZERO else r)


@fn('builtins.sorted', 'x key= reverse=')
def _sorted(I, st, node, p):
    t = tt(I, st, p.x)
    return I.alloc(st, Lst(None, intern('lsort', (t, tt(I, st, p.key), tt(I, st, p.reverse)), t.shape)), 'l')


@fn('builtins.all builtins.any', 'x')
def _ball(I, st, node, p):
    nm = p['@']
    items = I.concrete_items(st, p.x)
    if items is not None:
        ts = [I.truth(st, x) for x in items]
        if not ts:
            return const(nm == 'all')
        return ar.b_and(ts) if nm == 'all' else ar.b_or(ts)
    return quant(nm, tt(I, st, p.x))


def quant(nm, t):
    """all/any over a boolean array, as 'forall' terms."""
    if t.shape == ():
        return t
    if nm == 'any':
        return ar.b_not(quant('all', _not(t)))
    if t.op == 'carr':
        rest = [u for u in t.args[0] if u is not ar.TRUE]
        if any(u is ar.FALSE for u in rest):
            return ar.FALSE
        if not rest:
            return ar.TRUE
    return intern('forall', (t,), ())


def _not(t):
    if t.op == 'ew' and t.args[0] == 'not':
        return t.args[1]
    if t.op == 'ew' and t.args[0] in ('lt', 'le'):
        # not (a < b)  ==  b <= a   (exact for ordered numbers)
        return ar.ew('le' if t.args[0] == 'lt' else 'lt', t.args[2], t.args[1])
    if t.op == 'carr':
        return ar.carr([ar.b_not(x) for x in t.args[0]], t.shape)
    return intern('ew', ('not', t), t.shape) if t.shape is not None else ar.ext('not', (t,))


@fn('builtins.float builtins.int builtins.bool builtins.str builtins.repr builtins.round builtins.hash builtins.id '
    'math.floor math.ceil', 'x= n=')
def _conv(I, st, node, p):
    nm = p['@']
    if p.x is None:
        return {'float': const(0.0), 'int': ZERO, 'bool': const(False), 'str': const('')}.get(nm, ZERO)
    t = tt(I, st, p.x)
    if nm == 'round' and p.n is not None and p.n is not NONE:
        return ar.ext('round', (t, tt(I, st, p.n)), t.shape)
    if nm == 'bool':
        return I.truth(st, p.x)
    if nm == 'float':
        if t.op == 'const' and isinstance(cval(t), str):
            try:
                return const(float(cval(t)))
            except ValueError:
                pass
        if t.shape == ():
            return t
        if t.shape is not None and all(ar.is_one(d) for d in t.shape):
            return ar.index(t, tuple(('i', ZERO) for _ in t.shape))
        return ar.ext('float', (t,), ())
    if nm in ('int', 'floor', 'ceil', 'round'):
        if prove.is_int(t):
            return t
        if t.op == 'const' and isinstance(cval(t), Fraction):
            q = cval(t)
            return const({'int': int(q), 'floor': q.__floor__(), 'ceil': q.__ceil__(), 'round': round(q)}[nm])
        return intern('toint', (t, const(nm)), ())
    if nm in ('str', 'repr'):
        if t.op == 'const' and (isinstance(cval(t), (bool, int)) or cval(t) is None or nm == 'str' and isinstance(cval(t), str)):
            return const(str(cval(t)))
        return ar.ext('str', (t,), ())
    I.event(st, 'unmodelled', node, name=nm)
    return ar.ext(nm, (t,), ())


@fn('builtins.format', 'x spec=')
def _format(I, st, node, p):
    return ar.ext('str', (tt(I, st, p.x),), ())


@fn('builtins.slice', 'a b= c=')
def _slice(I, st, node, p):
    def s(v):
        return None if v is None or v is NONE else tt(I, st, v)
    if p.b is None:
        return SliceV(None, s(p.a), None)
    return SliceV(s(p.a), s(p.b), s(p.c))


@fn('builtins.getattr', 'obj name default=')
def _getattr(I, st, node, p):
    nm = p.name
    if isinstance(nm, Term) and nm.op == 'const':
        return I.getattr_(st, p.obj, cval(nm), node, default=p.default)
    return ar.ext('getattr', (tt(I, st, p.obj), tt(I, st, nm)))


@fn('builtins.hasattr', 'obj name')
def _hasattr(I, st, node, p):
    o, nm = p.obj, p.name
    if isinstance(nm, Term) and nm.op == 'const':
        nm = cval(nm)
        if isinstance(o, Ref):
            c = st.heap[o.loc]
            if isinstance(c, Obj):
                if nm in c.attrs:
                    v = c.attrs[nm]
                    if isinstance(v, MaybeU):
                        return ar.ext('haskey', (const(nm), const(str(o.loc))), ())
                    return const(True)
                return const(c.cls.lookup(nm)[0] is not None)
            if isinstance(c, Arr):
                return const(nm in ARR_METHODS or nm in ARR_ATTRS or nm.startswith('__'))
            if isinstance(c, Lst):
                return const(nm in (DEQUE_METHODS if c.kind == 'deque' else LIST_METHODS) or nm in ('__len__', '__iter__'))
        if isinstance(o, Term) and o.op == 'const':
            return const(hasattr(cval(o), nm))
        if isinstance(o, Tup):
            return const(hasattr((), nm))
    return ar.ext('cmp_hasattr', (tt(I, st, o), tt(I, st, p.name)), ())


@fn('builtins.setattr', 'obj name value')
def _setattr(I, st, node, p):
    if isinstance(p.name, Term) and p.name.op == 'const':
        I.setattr_(st, p.obj, cval(p.name), p.value, node)
    else:
        I.event(st, 'unsupported', node, what='setattr')
    return NONE


@fn('builtins.callable', 'x')
def _callable(I, st, node, p):
    return const(isinstance(p.x, (Func, Bound, Cls, BMeth, Ext)))


@fn('builtins.type', 'x')
def _type(I, st, node, p):
    v = p.x
    if isinstance(v, Ref) and isinstance(st.heap[v.loc], Obj):
        return st.heap[v.loc].cls
    return ar.ext('type', (tt(I, st, v),), ())


STR_PURE = {'lower', 'upper', 'strip', 'startswith', 'endswith', 'replace', 'title', 'casefold', 'find', 'isdigit',
            'lstrip', 'rstrip', 'count', 'isalpha', 'isidentifier'}
INT_CLASSES = {'builtins.int', 'numbers.Integral', 'numpy.integer', 'numpy.int64', 'numpy.int32', 'numbers.Rational'}
NUM_CLASSES = {'numbers.Number', 'numbers.Real', 'numbers.Complex', 'numpy.number'}
FLOAT_CLASSES = {'builtins.float', 'numpy.floating', 'numpy.float64'}


def isinst1(I, st, v, cls):
    """Boolean term: isinstance(v, cls)."""
    if isinstance(cls, Tup):
        return ar.b_or([isinst1(I, st, v, c) for c in cls.items])
    if isinstance(cls, Alt):
        return ar.ite(cls.cond, isinst1(I, st, v, cls.a), isinst1(I, st, v, cls.b))
    v = strip(v)
    if isinstance(v, Alt):
        return ar.ite(v.cond, isinst1(I, st, v.a, cls), isinst1(I, st, v.b, cls))
    if isinstance(cls, Cls):
        if isinstance(v, Ref) and isinstance(st.heap[v.loc], Obj):
            return const(cls in st.heap[v.loc].cls.mro())
        return ar.FALSE
    nm = cls.name if isinstance(cls, Ext) else None
    if nm is None:
        return ar.ext('cmp_isinstance', (tt(I, st, v), tt(I, st, cls)), ())
    if nm == 'builtins.object':
        return ar.TRUE
    if isinstance(v, Term):
        k = tm.meta(v).get('kind')
        if v.op == 'const':
            x = cval(v)
            if nm in INT_CLASSES:
                return const(isinstance(x, int) and not isinstance(x, bool) or isinstance(x, bool))
            if nm in NUM_CLASSES:
                return const(isinstance(x, (int, float, Fraction)))
            if nm in FLOAT_CLASSES:
                return const(isinstance(x, (float, Fraction)))
            if nm == 'builtins.str':
                return const(isinstance(x, str))
            if nm == 'builtins.bool':
                return const(isinstance(x, bool))
            return ar.FALSE
        if k == 'any':
            kinds = tm.meta(v).get('kinds')
            if nm in INT_CLASSES:
                return intern('isinst', (v, 'int'), ())
            if nm in NUM_CLASSES:
                return intern('isinst', (v, 'num'), ())
            return intern('isinst', (v, nm), ())
        if k == 'str':
            return const(nm == 'builtins.str')
        if v.op == 'ite':
            return ar.ite(v.args[0], isinst1(I, st, v.args[1], cls), isinst1(I, st, v.args[2], cls))
        if v.shape == () and v.op != 'ext':
            isint = prove.is_int(v)
            if nm in INT_CLASSES:
                return const(isint)
            if nm in NUM_CLASSES:
                return ar.TRUE
            if nm in FLOAT_CLASSES:
                return const(not isint)
            return ar.FALSE
        if v.shape:
            return const(nm == 'numpy.ndarray')
        return intern('isinst', (v, nm), ())
    if isinstance(v, Tup):
        return const(nm in ('builtins.tuple', 'collections.abc.Sequence', 'collections.abc.Iterable'))
    if isinstance(v, Ref):
        c = st.heap[v.loc]
        if isinstance(c, Lst):
            return const(nm in ('builtins.list', 'collections.abc.Sequence', 'collections.abc.Iterable') or
                         c.kind == 'deque' and nm == 'collections.deque')
        if isinstance(c, Dct):
            return const(nm in ('builtins.dict', 'collections.abc.Mapping'))
        if isinstance(c, Arr):
            return const(nm in ('numpy.ndarray', 'collections.abc.Iterable'))
        if isinstance(c, Rng):
            return const(nm.endswith(('RandomState',)))
        if isinstance(c, XObj):
            return const(nm.rsplit('.', 1)[-1] == c.cls)
        return ar.FALSE
    if isinstance(v, (Func, Bound)):
        return const(nm == 'collections.abc.Callable')
    return ar.ext('cmp_isinstance', (tt(I, st, v), const(nm)), ())


@fn('builtins.isinstance', 'x cls')
def _isinstance(I, st, node, p):
    return isinst1(I, st, p.x, p.cls)


@fn('builtins.issubclass', 'x cls')
def _issub(I, st, node, p):
    if isinstance(p.x, Cls) and isinstance(p.cls, Cls):
        return const(p.cls in p.x.mro())
    return ar.ext('cmp_issubclass', (tt(I, st, p.x), tt(I, st, p.cls)), ())


@fn('collections.deque', 'iterable= maxlen=')
def _deque(I, st, node, p):
    items = () if p.iterable is None else I.concrete_items(st, p.iterable)
    ml = None if p.maxlen is None or p.maxlen is NONE else tt(I, st, p.maxlen)
    if items is None:
        return I.alloc(st, Lst(None, ar.ext('deque', (tt(I, st, p.iterable),)), ml, 'deque'), 'q')
    if ml is not None and is_num_const(ml):
        items = list(items)[-int(cval(ml)):] if cval(ml) else []
    return I.alloc(st, Lst(tuple(items), None, ml, 'deque'), 'q')


@fn('copy.deepcopy copy.copy', 'x memo=')
def _deepcopy(I, st, node, p):
    deep = p['@'] == 'deepcopy'

    def go(v):
        if isinstance(v, Tup):
            return Tup([go(x) for x in v.items]) if deep else v
        if isinstance(v, Alt):
            return Alt(v.cond, go(v.a), go(v.b))
        if isinstance(v, MaybeU):
            return MaybeU(go(v.v))
        if isinstance(v, Ref):
            c = st.heap[v.loc]
            if isinstance(c, Arr):
                return I.alloc(st, Arr(I.read(st, v), None, c.dtype), 'a')
            if isinstance(c, Lst):
                return I.alloc(st, Lst(tuple(go(x) for x in c.items) if deep and c.items is not None else c.items,
                                       c.sym, c.maxlen, c.kind), 'l')
            if isinstance(c, Dct):
                return I.alloc(st, Dct({k: go(x) for k, x in c.items.items()} if deep else dict(c.items), None, c.open), 'd')
            if isinstance(c, Obj):
                return I.alloc(st, Obj(c.cls, {k: go(x) for k, x in c.attrs.items()} if deep else dict(c.attrs)), 'o')
            if isinstance(c, XObj):
                return I.alloc(st, XObj(c.cls, {k: go(x) for k, x in c.attrs.items()}, c.term), 'x')
            if isinstance(c, Rng):
                return I.alloc(st, Rng(c.term), 'g')
        return v
    return go(p.x)


@fn('warnings.warn', 'message category= stacklevel= source= skip_file_prefixes=')
def _warn(I, st, node, p):
    I.event(st, 'warn', node, category=p.category.name if isinstance(p.category, Ext) else 'UserWarning',
            message=tt(I, st, p.message))
    return NONE


@fn('warnings.simplefilter warnings.filterwarnings', '*args **kw')
def _wf(I, st, node, p):
    I.event(st, 'warn-filter', node)
    return NONE


@fn('time.perf_counter time.time time.monotonic time.process_time time.perf_counter_ns time.time_ns', '')
def _time(I, st, node, p):
    I.event(st, 'impure', node, what='clock')
    return ar.ext('time', (const(I.fresh('t')),), ())


# ------------------------------------------------------------------ sklearn helpers

@fn('sklearn.utils.check_random_state', 'seed')
def _crs(I, st, node, p):
    v = p.seed
    if v is NONE:
        I.event(st, 'global-rng', node, name='check_random_state(None)')
        return I.global_rng(st)
    if isinstance(v, Ref) and isinstance(st.heap[v.loc], Rng):
        return v
    if isinstance(v, Ext) and v.name in ('numpy.random', 'numpy.random.mtrand'):
        I.event(st, 'global-rng', node, name='numpy.random')
        return I.global_rng(st)
    return I.alloc(st, Rng(intern('seed', (tt(I, st, v),), ())), 'g')


@fn('numpy.random.RandomState numpy.random.default_rng', 'seed=')
def _rs(I, st, node, p):
    if p.seed is None or p.seed is NONE:
        I.event(st, 'global-rng', node, name='RandomState()')
        I.event(st, 'impure', node, what='entropy')
        return I.alloc(st, Rng(ar.ext('entropy', (const(I.fresh('en')),), ())), 'g')
    if isinstance(p.seed, Ref) and isinstance(st.heap[p.seed.loc], Rng):
        return p.seed
    return I.alloc(st, Rng(intern('seed', (tt(I, st, p.seed),), ())), 'g')


@fn('sklearn.utils.check_array',
    'array accept_sparse= * accept_large_sparse= dtype= order= copy= force_writeable= ensure_all_finite= '
    'force_all_finite= ensure_non_negative= ensure_2d= allow_nd= ensure_min_samples= ensure_min_features= '
    'estimator= input_name=')
def _check_array(I, st, node, p):
    from .interp import DeadPath
    v = p.array
    t = tt(I, st, v)
    I.event(st, 'validated', node, term=t, kw=sorted(k for k in p if k not in ('array', '@')))
    if t.shape is not None and p.ensure_2d is None and len(t.shape) != 2:
        I.event(st, 'raise', node, exc='ValueError', implicit=True)
        raise DeadPath()
    finite = not any(k in p and not flag(p[k], True) for k in ('ensure_all_finite', 'force_all_finite'))
    if finite:
        st.assume(intern('finite', (t,), ()), True)
    if p.ensure_non_negative is not None and flag(p.ensure_non_negative):
        st.assume(quant('all', ar.ew('le', ar.full(t.shape, ZERO) if t.shape else ZERO, t)), True)
    if isinstance(v, Ref) and isinstance(st.heap[v.loc], Arr) and not flag(p.copy):
        return v
    return I.alloc(st, Arr(t, None, I.dtype(st, v)), 'a')


# ------------------------------------------------------------------ numpy: creation

def _shape_kw(I, st, v, node, nm):
    from .interp import DeadPath
    if strip(v) is NONE:
        return ()                        # numpy: None as a shape means no dimensions (deprecated)
    sh = shp(I, st, v)
    if sh is not None and any(d is NONE for d in sh):
        I.event(st, 'none-operand', node)
        raise DeadPath()
    return sh


@fn('numpy.zeros', 'shape dtype= order= * like=')
def _zeros(I, st, node, p):
    sh = _shape_kw(I, st, p.shape, node, 'zeros')
    d = 'f' if p.dtype is None else dt(I, st, p.dtype)
    t = ar.zeros(sh) if sh is not None else ar.ext('zeros', (tt(I, st, p.shape),))
    return I.alloc(st, Arr(t, None, d), 'a')


@fn('numpy.ones', 'shape dtype= order= * like=')
def _ones(I, st, node, p):
    sh = _shape_kw(I, st, p.shape, node, 'ones')
    d = 'f' if p.dtype is None else dt(I, st, p.dtype)
    t = ar.ones(sh) if sh is not None else ar.ext('ones', (tt(I, st, p.shape),))
    return I.alloc(st, Arr(t, None, d), 'a')


@fn('numpy.empty', 'shape dtype= order= * like=')
def _empty(I, st, node, p):
    sh = _shape_kw(I, st, p.shape, node, 'empty')
    d = 'f' if p.dtype is None else dt(I, st, p.dtype)
    t = ar.empty(I.fresh('empty'), sh) if sh is not None else ar.ext('empty', (const(I.fresh('e')),))
    return I.alloc(st, Arr(t, None, d), 'a')


@fn('numpy.full', 'shape fill_value dtype= order= * like=')
def _full(I, st, node, p):
    sh = _shape_kw(I, st, p.shape, node, 'full')
    v = tt(I, st, p.fill_value)
    d = I.dtype(st, p.fill_value) if p.dtype is None else dt(I, st, p.dtype)
    v = conv(I, st, p.fill_value, v, d)
    if sh is None:
        t = ar.ext('full', (tt(I, st, p.shape), v))
    elif v.shape == ():
        t = ar.full(sh, v)
    else:
        t = ar.bcast(v, sh)
    return I.alloc(st, Arr(t, None, d), 'a')


@fn('numpy.zeros_like numpy.ones_like numpy.empty_like', 'a dtype= order= subok= shape=')
def _zlike(I, st, node, p):
    nm = p['@']
    t = tt(I, st, p.a)
    sh = t.shape if p.shape is None else shp(I, st, p.shape)
    d = I.dtype(st, p.a) if p.dtype is None else dt(I, st, p.dtype)
    if sh is None:
        return I.alloc(st, Arr(ar.ext(nm, (t,)), None, d), 'a')
    if nm.startswith('zeros'):
        r = ar.zeros(sh)
    elif nm.startswith('ones'):
        r = ar.ones(sh)
    else:
        r = ar.empty(I.fresh('empty'), sh)
    return I.alloc(st, Arr(r, None, d), 'a')


@fn('numpy.full_like', 'a fill_value dtype= order= subok= shape=')
def _flike(I, st, node, p):
    t = tt(I, st, p.a)
    d = I.dtype(st, p.a) if p.dtype is None else dt(I, st, p.dtype)
    v = conv(I, st, p.fill_value, tt(I, st, p.fill_value), d)
    return I.alloc(st, Arr(ar.full(t.shape, v) if t.shape is not None and v.shape == () else ar.ext('full', (t, v)),
                           None, d), 'a')


@fn('numpy.eye numpy.identity', 'N M= k= dtype= order=')
def _eye(I, st, node, p):
    n = tt(I, st, p.N)
    d = dt(I, st, p.dtype) or 'f'
    if p.M is not None or p.k is not None:
        return opaque(I, st, 'eye', [p.N, p.M, p.k], (n, n) if p.M is None else None, d)
    return I.alloc(st, Arr(ar.eye(n), None, d), 'a')


@fn('numpy.arange', 'a b= c= dtype=')
def _arange(I, st, node, p):
    a = tt(I, st, p.a)
    b = tt(I, st, p.b) if p.b is not None else None
    if p.c is not None and not (is_num_const(p.c) and cval(p.c) == 1):
        r = RangeV(a, b, tt(I, st, p.c))
        n = I.range_count(r)
        if n is not None and is_num_const(n):
            return I.new_arr(st, ar.carr([s_add(a, s_mul(const(i), tt(I, st, p.c))) for i in range(max(0, cval(n)))], (n,)), 'i')
        return opaque(I, st, 'arange', [p.a, p.b, p.c], (n,) if n is not None else None, 'i')
    lo, hi = (ZERO, a) if b is None else (a, b)
    n = s_sub(hi, lo)
    return I.alloc(st, Arr(intern('arange', (lo, hi), (n,)), None, 'i' if prove.is_int(n) else None), 'a')


@fn('numpy.linspace', 'start stop num= endpoint= retstep= dtype= axis=')
def _linspace(I, st, node, p):
    n = tt(I, st, p.num) if p.num is not None else const(50)
    return opaque(I, st, 'linspace', [p.start, p.stop, n], (n,), 'f')


@fn('numpy.array numpy.asarray numpy.atleast_1d numpy.ascontiguousarray numpy.asfarray numpy.asanyarray',
    'object dtype= copy= order= subok= ndmin=')
def _array(I, st, node, p):
    nm = p['@']
    v = p.object
    d = dt(I, st, p.dtype) if p.dtype is not None else I.dtype(st, v)
    if isinstance(v, Term) and v.op == 'const' and cval(v) is None:
        return I.alloc(st, Arr(ar.ext('array_none', (), ()), None, d), 'a')       # zero-dimensional
    if isinstance(v, Ref) and isinstance(st.heap[v.loc], Arr):
        if nm != 'array' and (p.dtype is None or d == st.heap[v.loc].dtype):
            return v
        t = I.read(st, v)
    else:
        t = I.arr(st, v)
        if t is None:
            t = tt(I, st, v)
    if t.shape == () and nm == 'atleast_1d':
        t = ar.full((ONE,), t)
    if t.op == 'ext' and t.shape is None:
        return I.alloc(st, Arr(t, None, d), 'a')
    if t.shape == ():
        return conv(I, st, v, t, d)
    return I.alloc(st, Arr(conv(I, st, v, t, d), None, d), 'a')


@fn('numpy.copy', 'a order= subok=')
def _copy(I, st, node, p):
    return I.alloc(st, Arr(tt(I, st, p.a), None, I.dtype(st, p.a)), 'a')


@fn('numpy.diag', 'v k=')
def _diag(I, st, node, p):
    t = tt(I, st, p.v)
    if p.k is not None and p.k is not ZERO:
        return opaque(I, st, 'diagk', [t, p.k])
    return I.new_arr(st, ar.diag(t), I.dtype(st, p.v))


@fn('numpy.diagonal', 'a offset= axis1= axis2=')
def _diagonal(I, st, node, p):
    t = tt(I, st, p.a)
    if p.offset is not None and p.offset is not ZERO or p.axis1 is not None:
        return opaque(I, st, 'diagonalk', [t, p.offset])
    return I.new_arr(st, ar.diagonal(t), I.dtype(st, p.a))


@fn('numpy.tile', 'A reps')
def _tile(I, st, node, p):
    t = tt(I, st, p.A)
    sh = shp(I, st, p.reps)
    d = I.dtype(st, p.A)
    if t.shape is None or sh is None:
        return opaque(I, st, 'tile', [t, p.reps], None, d)
    if t.shape == ():
        return I.alloc(st, Arr(ar.full(sh, t), None, d), 'a')
    nd = max(len(sh), len(t.shape))
    reps = (ONE,) * (nd - len(sh)) + tuple(sh)
    src = (ONE,) * (nd - len(t.shape)) + tuple(t.shape)
    out = tuple(s_mul(a, b) for a, b in zip(reps, src))
    if all(ar.is_one(a) or ar.is_one(b) for a, b in zip(reps, src)):
        x = ar.reshape(t, src) if len(src) != len(t.shape) else t
        return I.alloc(st, Arr(ar.bcast(x, out), None, d), 'a')
    c = ar.to_carr(t)
    if c is not None and nd == 1 and is_num_const(reps[0]) and cval(reps[0]) * len(c.args[0]) <= 4000:
        return I.alloc(st, Arr(ar.carr(list(c.args[0]) * int(cval(reps[0])), out), None, d), 'a')
    return I.alloc(st, Arr(intern('tile', (t, reps), out), None, d), 'a')


@fn('numpy.repeat', 'a repeats axis=')
def _repeat(I, st, node, p):
    t, n = tt(I, st, p.a), tt(I, st, p.repeats)
    d = I.dtype(st, p.a)
    ax = axis_of(I, st, p.axis)
    if t.shape is None or n.shape != () or ax == 'opaque':
        return opaque(I, st, 'repeat', [t, n], None, d)
    if t.shape == ():
        return I.alloc(st, Arr(ar.full((n,), t), None, d), 'a')
    if ax is None:
        t = _ravel(t)
        ax = 0
    ax = ar.norm_axis(ax, len(t.shape))
    out = t.shape[:ax] + (s_mul(t.shape[ax], n),) + t.shape[ax + 1:]
    if ar.is_one(t.shape[ax]):
        return I.alloc(st, Arr(ar.bcast(t, out), None, d), 'a')
    c = ar.to_carr(t)
    if c is not None and len(t.shape) == 1 and is_num_const(n) and cval(n) * len(c.args[0]) <= 4000:
        return I.alloc(st, Arr(ar.carr([x for x in c.args[0] for _ in range(int(cval(n)))], out), None, d), 'a')
    return I.alloc(st, Arr(intern('repeat', (t, n, ax), out), None, d), 'a')


@fn('numpy.broadcast_to', 'array shape subok=')
def _bto(I, st, node, p):
    t = tt(I, st, p.array)
    sh = shp(I, st, p.shape)
    if sh is None or t.shape is None:
        return opaque(I, st, 'broadcast_to', [t, p.shape])
    b = ar.bshape(t.shape, sh, 'broadcast_to')
    if b is None or not ar.same_shape(b, sh):
        ar.issue('broadcast_to', a=t.shape, b=sh)
    if isinstance(p.array, Ref) and isinstance(st.heap[p.array.loc], Arr) and ar.same_shape(t.shape, sh):
        return p.array
    return I.new_arr(st, ar.bcast(t, sh), I.dtype(st, p.array))


@fn('numpy.expand_dims', 'a axis')
def _expand(I, st, node, p):
    t = tt(I, st, p.a)
    ax = axis_of(I, st, p.axis)
    if t.shape is None or not isinstance(ax, int):
        return opaque(I, st, 'expand_dims', [t, p.axis])
    n = len(t.shape) + 1
    ax = ar.norm_axis(ax, n)
    ix = [('a',)] * len(t.shape)
    ix.insert(ax, ('n',))
    if isinstance(p.a, Ref) and isinstance(st.heap[p.a.loc], Arr):
        return Ref(p.a.loc, p.a.path + (('ix', tuple(ix)),))
    return I.new_arr(st, ar.index(t, tuple(ix)) if t.shape != () else ar.full((ONE,), t))


@fn('numpy.squeeze', 'a axis=')
def _squeeze(I, st, node, p):
    t = tt(I, st, p.a)
    ax = axis_of(I, st, p.axis)
    if t.shape is None or ax == 'opaque':
        return opaque(I, st, 'squeeze', [t])
    axes = None if ax is None else {ar.norm_axis(x, len(t.shape)) for x in (ax if isinstance(ax, tuple) else (ax,))}
    ix = tuple(('i', ZERO) if ar.is_one(d) and (axes is None or i in axes) else ('a',) for i, d in enumerate(t.shape))
    if all(e[0] == 'a' for e in ix):
        return p.a
    if isinstance(p.a, Ref) and isinstance(st.heap[p.a.loc], Arr) and any(e[0] == 'a' for e in ix):
        return Ref(p.a.loc, p.a.path + (('ix', ix),))
    return I.new_arr(st, ar.index(t, ix))


@fn('numpy.reshape', 'a shape= order= newshape= copy=')
def _reshape(I, st, node, p):
    v = p.shape if p.shape is not None else p.newshape
    if isinstance(p.a, Ref) and isinstance(st.heap[p.a.loc], Arr):
        return reshape_ref(I, st, p.a, v, node, order_of(p.order))
    t = tt(I, st, p.a)
    r = I.alloc(st, Arr(t, None, I.dtype(st, p.a)), 'a')
    return reshape_ref(I, st, r, v, node, order_of(p.order))


@fn('numpy.ravel', 'a order=')
def _npravel(I, st, node, p):
    if isinstance(p.a, Ref) and isinstance(st.heap[p.a.loc], Arr):
        return arr_method(I, st, p.a, 'ravel', [], {'order': p.order} if p.order is not None else {}, node)
    o, t = order_of(p.order), tt(I, st, p.a)
    return I.new_arr(st, ar.ext('ravel', (t,)) if o is None else _ravel(t if o == 'C' else reversed_axes(t)))


@fn('numpy.transpose', 'a axes=')
def _transpose(I, st, node, p):
    if isinstance(p.a, Ref) and isinstance(st.heap[p.a.loc], Arr):
        return arr_method(I, st, p.a, 'transpose', [p.axes] if p.axes is not None else [], {}, node)
    t = tt(I, st, p.a)
    return I.new_arr(st, ar.T(t) if t.shape and len(t.shape) == 2 and p.axes is None else ar.ext('transpose', (t,)))


@fn('numpy.swapaxes', 'a axis1 axis2')
def _swap(I, st, node, p):
    t = tt(I, st, p.a)
    a1, a2 = axis_of(I, st, p.axis1), axis_of(I, st, p.axis2)
    if t.shape is None or not isinstance(a1, int) or not isinstance(a2, int):
        return opaque(I, st, 'swapaxes', [t, p.axis1, p.axis2])
    perm = list(range(len(t.shape)))
    a1, a2 = ar.norm_axis(a1, len(perm)), ar.norm_axis(a2, len(perm))
    perm[a1], perm[a2] = perm[a2], perm[a1]
    if perm == sorted(perm):
        return p.a
    if isinstance(p.a, Ref) and isinstance(st.heap[p.a.loc], Arr):
        if len(perm) == 2:
            return arr_attr(I, st, p.a, st.heap[p.a.loc], 'T', node)
        return Ref(p.a.loc, p.a.path + (('perm', tuple(perm)),))
    return I.new_arr(st, ar.transpose_axes(t, tuple(perm)))


@fn('numpy.moveaxis', 'a source destination')
def _moveaxis(I, st, node, p):
    t = tt(I, st, p.a)
    a1, a2 = axis_of(I, st, p.source), axis_of(I, st, p.destination)
    if t.shape is None or not isinstance(a1, int) or not isinstance(a2, int):
        return opaque(I, st, 'moveaxis', [t, p.source, p.destination])
    perm = list(range(len(t.shape)))
    a1, a2 = ar.norm_axis(a1, len(perm)), ar.norm_axis(a2, len(perm))
    x = perm.pop(a1)
    perm.insert(a2, x)
    if isinstance(p.a, Ref) and isinstance(st.heap[p.a.loc], Arr):
        return Ref(p.a.loc, p.a.path + (('perm', tuple(perm)),))
    return I.new_arr(st, ar.transpose_axes(t, tuple(perm)))


@fn('numpy.roll', 'a shift axis=')
def _roll(I, st, node, p):
    t, s = tt(I, st, p.a), tt(I, st, p.shift)
    ax = axis_of(I, st, p.axis)
    d = I.dtype(st, p.a)
    if t.shape is None or s.shape != () or (ax is None and len(t.shape) != 1) or isinstance(ax, (tuple, str)):
        return opaque(I, st, 'roll', [t, s, p.axis], t.shape, d)
    ax = ar.norm_axis(ax or 0, len(t.shape))
    n = t.shape[ax]
    if prove.prove_ge0(s) and prove.prove_ge0(s_sub(n, s)):
        def sl(lo, hi):
            return tuple(('s', lo, hi) if i == ax else ('a',) for i in range(len(t.shape)))
        if prove.prove_eq(s, ZERO):
            return I.new_arr(st, t, d)
        return I.new_arr(st, ar.cat([ar.index(t, sl(s_sub(n, s), n)), ar.index(t, sl(ZERO, s_sub(n, s)))], ax), d)
    if prove.prove_ge0(s_neg(s)) and prove.prove_ge0(s_add(n, s)):
        def sl(lo, hi):
            return tuple(('s', lo, hi) if i == ax else ('a',) for i in range(len(t.shape)))
        return I.new_arr(st, ar.cat([ar.index(t, sl(s_neg(s), n)), ar.index(t, sl(ZERO, s_neg(s)))], ax), d)
    return I.new_arr(st, intern('roll', (t, s, ax), t.shape), d)


def _parts(I, st, v):
    items = I.concrete_items(st, v)
    if items is not None and not isinstance(v, Term):
        return [tt(I, st, x) for x in items], items
    return None, None


def _cat(I, st, parts, items, axis, d):
    if any(x.shape is None for x in parts) or not isinstance(axis, int):
        return opaque(I, st, 'concatenate', parts, None, d)
    if len(parts) == 1:
        return I.new_arr(st, parts[0], d)
    cs = [ar.to_carr(x) for x in parts]
    if all(c is not None for c in cs) and len(parts[0].shape) == 1:
        xs = [y for c in cs for y in c.args[0]]
        return I.new_arr(st, ar.carr(xs, (const(len(xs)),)), d)
    return I.new_arr(st, ar.cat(parts, axis), d)


def _cdt(I, st, items):
    from .interp import promote
    d = None
    for x in items:
        d = promote(d, I.dtype(st, x))
    return d


@fn('numpy.concatenate', 'arrays axis= out= dtype= casting=')
def _concat(I, st, node, p):
    parts, items = _parts(I, st, p.arrays)
    if parts is None:
        # symbolic list of equal blocks
        t = tt(I, st, p.arrays)
        ax = axis_of(I, st, p.axis) if p.axis is not None else 0
        if t.shape is not None and len(t.shape) >= 2 and ax == 0:
            return I.new_arr(st, ar.reshape(t, (s_mul(t.shape[0], t.shape[1]),) + tuple(t.shape[2:])), I.dtype(st, p.arrays))
        return opaque(I, st, 'concatenate', [t])
    ax = axis_of(I, st, p.axis) if p.axis is not None else 0
    if ax is None:
        parts = [_ravel(x) for x in parts]
        ax = 0
    return _cat(I, st, parts, items, ax, _cdt(I, st, items))


@fn('numpy.hstack', 'tup')
def _hstack(I, st, node, p):
    parts, items = _parts(I, st, p.tup)
    if parts is None:
        return opaque(I, st, 'hstack', [p.tup])
    nd = {len(x.shape) for x in parts if x.shape is not None}
    if len(nd) > 1:
        ar.issue('hstack', a=parts[0].shape, b=parts[-1].shape)
    return _cat(I, st, parts, items, 0 if nd == {1} else 1, _cdt(I, st, items))


@fn('numpy.vstack', 'tup')
def _vstack(I, st, node, p):
    parts, items = _parts(I, st, p.tup)
    if parts is None:
        return opaque(I, st, 'vstack', [p.tup])
    parts = [ar.reshape(x, (ONE, x.shape[0])) if x.shape is not None and len(x.shape) == 1 else x for x in parts]
    return _cat(I, st, parts, items, 0, _cdt(I, st, items))


@fn('numpy.column_stack', 'tup')
def _colstack(I, st, node, p):
    parts, items = _parts(I, st, p.tup)
    if parts is None:
        return opaque(I, st, 'column_stack', [p.tup])
    parts = [ar.reshape(x, (x.shape[0], ONE)) if x.shape is not None and len(x.shape) == 1 else x for x in parts]
    return _cat(I, st, parts, items, 1, _cdt(I, st, items))


@fn('numpy.stack', 'arrays axis= out=')
def _stack(I, st, node, p):
    parts, items = _parts(I, st, p.arrays)
    ax = axis_of(I, st, p.axis) if p.axis is not None else 0
    if parts is None:
        t = tt(I, st, p.arrays)
        return I.new_arr(st, t) if ax == 0 and t.shape else opaque(I, st, 'stack', [t])
    if any(x.shape is None for x in parts):
        return opaque(I, st, 'stack', parts)
    r = ar.stack(parts)
    if ax not in (0, None) and r.shape is not None:
        a = ar.norm_axis(ax, len(r.shape))
        perm = list(range(1, len(r.shape)))
        perm.insert(a, 0)
        r = ar.transpose_axes(r, tuple(perm))
    return I.new_arr(st, r, _cdt(I, st, items))


# ------------------------------------------------------------------ numpy: elementwise

def _uf(I, st, node, p, f, *names, dtype=None):
    ts = [tt(I, st, p.get(n)) for n in names]
    from .interp import promote, DeadPath
    for t in ts:
        if t is NONE:
            I.event(st, 'none-operand', node)
            raise DeadPath()
    d = None
    for n in names:
        d = promote(d, I.dtype(st, p.get(n)))
    if p.where is not None and not (isinstance(p.where, Term) and p.where is const(True)):
        r = ar.ext('ufunc-where', ts + [tt(I, st, p.where)], ts[0].shape)
    else:
        r = f(*ts)
    return put(I, st, p.out, r, node, dtype or d)


U2 = 'x1 x2 out= where= dtype= casting= order='
U1 = 'x out= where= dtype= casting= order='


@fn('numpy.add', U2)
def _add(I, st, node, p):
    return _uf(I, st, node, p, lambda a, b: I.arith('Add', a, b), 'x1', 'x2')


@fn('numpy.subtract', U2)
def _subt(I, st, node, p):
    return _uf(I, st, node, p, lambda a, b: I.arith('Sub', a, b), 'x1', 'x2')


@fn('numpy.multiply', U2)
def _mult(I, st, node, p):
    return _uf(I, st, node, p, lambda a, b: I.arith('Mult', a, b), 'x1', 'x2')


@fn('numpy.divide numpy.true_divide', U2)
def _divide(I, st, node, p):
    I.event(st, 'div', node, num=tt(I, st, p.x1), den=tt(I, st, p.x2),
            guarded=p.where is not None)
    if p.where is not None:
        w = tt(I, st, p.where)
        a, b = tt(I, st, p.x1), tt(I, st, p.x2)
        o = tt(I, st, p.out) if p.out is not None else ar.ext('uninit', (const(I.fresh('u')),))
        r = ar.ew('where', w, ar.div(a, b), o)
        return put(I, st, p.out, r, node, 'f')
    return _uf(I, st, node, p, lambda a, b: I.arith('Div', a, b), 'x1', 'x2', dtype='f')


@fn('numpy.power', U2)
def _power(I, st, node, p):
    return _uf(I, st, node, p, lambda a, b: I.arith('Pow', a, b), 'x1', 'x2')


@fn('numpy.square', U1)
def _square(I, st, node, p):
    return _uf(I, st, node, p, lambda a: ar.mul(a, a), 'x')


@fn('numpy.sqrt math.sqrt', U1)
def _sqrt(I, st, node, p):
    t = tt(I, st, p.x)
    I.event(st, 'sqrt', node, arg=t)
    return _uf(I, st, node, p, ar.sqrt, 'x', dtype='f')


@fn('numpy.negative', U1)
def _negative(I, st, node, p):
    return _uf(I, st, node, p, ar.neg, 'x')


@fn('numpy.reciprocal', U1)
def _recipr(I, st, node, p):
    I.event(st, 'div', node, num=ONE, den=tt(I, st, p.x))
    return _uf(I, st, node, p, lambda a: ar.div(ONE, a), 'x')


@fn('numpy.exp numpy.log numpy.sin numpy.cos numpy.tanh numpy.sign numpy.floor numpy.ceil numpy.rint numpy.log1p '
    'numpy.expm1 math.exp math.log numpy.conj numpy.conjugate numpy.real numpy.trunc', U1)
def _u1(I, st, node, p):
    nm = p['@']
    if nm in ('conj', 'conjugate', 'real'):
        return _uf(I, st, node, p, lambda a: a, 'x')
    return _uf(I, st, node, p, lambda a: ar.ew(nm, a), 'x')


@fn('numpy.round numpy.around', 'a decimals= out=')
def _round(I, st, node, p):
    t = tt(I, st, p.a)
    d = tt(I, st, p.decimals) if p.decimals is not None else ZERO
    if t.shape is None:
        return opaque(I, st, 'round', [t, d])
    r = ar.ew('round', t) if is_num_const(d) and cval(d) == 0 else ar.ext('round', (t, d), t.shape)
    return put(I, st, p.out, r, node, I.dtype(st, p.a))


@fn('numpy.isnan numpy.isinf numpy.isfinite', U1)
def _isnan(I, st, node, p):
    nm = p['@']
    t = tt(I, st, p.x)
    if t.shape == ():
        if t is NAN:
            return const(nm == 'isnan')
        return ar.ext('cmp_' + nm, (t,), ())
    return I.new_arr(st, ar.ew(nm, t), 'b')


@fn('numpy.fmax numpy.maximum', U2)
def _fmax(I, st, node, p):
    return _uf(I, st, node, p, lambda a, b: ar.ew('fmax', a, b), 'x1', 'x2')


@fn('numpy.fmin numpy.minimum', U2)
def _fmin(I, st, node, p):
    return _uf(I, st, node, p, lambda a, b: ar.ew('fmin', a, b), 'x1', 'x2')


@fn('numpy.clip', 'a a_min= a_max= out= min= max= dtype=')
def _clip(I, st, node, p):
    lo = p.a_min if p.a_min is not None else p.min
    hi = p.a_max if p.a_max is not None else p.max
    t = tt(I, st, p.a)
    if lo is not None and lo is not NONE:
        t = ar.ew('fmax', t, tt(I, st, lo))
    if hi is not None and hi is not NONE:
        t = ar.ew('fmin', t, tt(I, st, hi))
    return put(I, st, p.out, t, node, I.dtype(st, p.a))


@fn('numpy.where', 'condition x= y=')
def _where(I, st, node, p):
    c = tt(I, st, p.condition)
    if p.x is None:
        return Tup([opaque(I, st, 'nonzero', [c], None, 'i')])
    x, y = tt(I, st, p.x), tt(I, st, p.y)
    if c.shape == () and x.shape == () and y.shape == ():
        return ar.ite(I.truth(st, c), x, y)
    from .interp import promote
    return I.new_arr(st, ar.ew('where', c, x, y), promote(I.dtype(st, p.x), I.dtype(st, p.y)))


@fn('numpy.nan_to_num', 'x copy= nan= posinf= neginf=')
def _nan_to_num(I, st, node, p):
    return opaque(I, st, 'nan_to_num', [p.x, p.nan, p.posinf, p.neginf], tt(I, st, p.x).shape, 'f')


@fn('numpy.equal numpy.not_equal numpy.less numpy.less_equal numpy.greater numpy.greater_equal numpy.logical_and '
    'numpy.logical_or', U2)
def _cmpu(I, st, node, p):
    nm = {'equal': 'eq', 'not_equal': 'ne', 'less': 'lt', 'less_equal': 'le', 'greater': 'gt', 'greater_equal': 'ge',
          'logical_and': 'and', 'logical_or': 'or'}[p['@']]
    if nm in ('and', 'or'):
        return _uf(I, st, node, p, lambda a, b: ar.ew(nm, a, b) if a.shape or b.shape else
                   (ar.b_and if nm == 'and' else ar.b_or)([I.truth(st, a), I.truth(st, b)]), 'x1', 'x2', dtype='b')
    return _uf(I, st, node, p, lambda a, b: ar.ew(nm, a, b), 'x1', 'x2', dtype='b')


@fn('numpy.logical_not', U1)
def _lnot(I, st, node, p):
    return _uf(I, st, node, p, lambda a: _not(a) if a.shape else ar.b_not(I.truth(st, a)), 'x', dtype='b')


@fn('numpy.isclose', 'a b rtol= atol= equal_nan=')
def _isclose(I, st, node, p):
    a, b = tt(I, st, p.a), tt(I, st, p.b)
    sh = ar.bshape(a.shape, b.shape, 'isclose') if a.shape is not None and b.shape is not None else None
    rt = tt(I, st, p.rtol) if p.rtol is not None else const(1e-5)
    at = tt(I, st, p.atol) if p.atol is not None else const(1e-8)
    if sh == ():
        return ar.scalar_fn('isclose', a, b, rt, at)
    if sh is not None and (a.op == 'carr' or b.op == 'carr') and rt.shape == () and at.shape == ():
        ca, cb = ar.to_carr(ar.bcast(a, sh)), ar.to_carr(ar.bcast(b, sh))
        if ca is not None and cb is not None:
            r = ar.carr_map(lambda u, v: ar.scalar_fn('isclose', u, v, rt, at), [ca, cb], sh)
            if r is not None:
                return I.new_arr(st, r, 'b')
    return I.new_arr(st, intern('ew', ('isclose', ar.bcast(a, sh), ar.bcast(b, sh), rt, at), sh) if sh is not None else
                     ar.ext('isclose', (a, b)), 'b')


@fn('numpy.allclose', 'a b rtol= atol= equal_nan=')
def _allclose(I, st, node, p):
    r = _isclose(I, st, node, p)
    return quant('all', tt(I, st, r))


@fn('numpy.array_equal', 'a1 a2 equal_nan=')
def _aeq(I, st, node, p):
    a, b = tt(I, st, p.a1), tt(I, st, p.a2)
    if a is b:
        return ar.TRUE
    return intern('same', tuple(sorted((a, b))), ())


# ------------------------------------------------------------------ numpy: reductions

RED = 'a axis= dtype= out= keepdims= initial= where='


def _red(I, st, node, p, f):
    t = tt(I, st, p.a)
    ax = axis_of(I, st, p.axis)
    kd = flag(p.keepdims)
    if ax == 'opaque' or t.shape is None or p.where is not None:
        return opaque(I, st, p['@'], [t, p.axis, p.where], () if p.axis is None else None)
    return put(I, st, p.out, f(t, ax, kd), node, I.dtype(st, p.a))


@fn('numpy.sum', RED)
def _sum(I, st, node, p):
    def f(t, ax, kd):
        if t.op == 'ew' and t.args[0] in ('eq', 'ne', 'lt', 'le', 'and', 'or', 'not') and ax is None:
            return ar.count(t)
        return ar.reduce_sum(t, ax, kd)
    r = _red(I, st, node, p, f)
    if I.dtype(st, p.a) == 'b' and isinstance(r, Ref):
        c = st.heap[r.loc]
        st.heap[r.loc] = Arr(c.term, c.origin, 'i')
    return r


@fn('numpy.count_nonzero', 'a axis= keepdims=')
def _cnz(I, st, node, p):
    t = tt(I, st, p.a)
    if p.axis is None and t.shape is not None:
        return ar.count(t)
    return opaque(I, st, 'count_nonzero', [t, p.axis], None, 'i')


@fn('numpy.mean numpy.average', 'a axis= dtype= out= keepdims= where= weights=')
def _mean(I, st, node, p):
    def f(t, ax, kd):
        n = ONE
        axes = range(len(t.shape)) if ax is None else [ar.norm_axis(x, len(t.shape)) for x in
                                                       (ax if isinstance(ax, tuple) else (ax,))]
        for x in axes:
            n = s_mul(n, t.shape[x])
        I.event(st, 'div', node, num=t, den=n)
        return ar.mul(ar.reduce_sum(t, ax, kd), s_div(ONE, n))
    if p.weights is not None:
        w = tt(I, st, p.weights)
        if w.shape is not None and len(w.shape) == 1:
            I.event(st, 'div', node, num=tt(I, st, p.a), den=ar.reduce_sum(w, None))
        return opaque(I, st, 'average', [p.a, p.axis, p.weights])
    return _red(I, st, node, p, f)


def _reduce_ext(t, nm, ax, kd=False):
    if t.shape == ():
        return t
    axes = tuple(range(len(t.shape))) if ax is None else tuple(sorted(
        ar.norm_axis(x, len(t.shape)) for x in (ax if isinstance(ax, tuple) else (ax,))))
    if nm in ('argmax', 'argmin') and len(t.shape) == 1 and t.op == 'carr' and t.args[0] and \
            all(is_num_const(v) for v in t.args[0]):
        vs = [cval(v) for v in t.args[0]]
        return const(vs.index(max(vs) if nm == 'argmax' else min(vs)))
    if len(axes) == len(t.shape) and nm in ('max', 'min'):
        if t.op == 'carr':
            return (ar.smax if nm == 'max' else ar.smin)(list(t.args[0])) if t.args[0] else ar.ext('empty-' + nm, (), ())
        if t.op in ('full',):
            return t.args[1]
        if t.op == 'ones':
            return ONE
        c = ar.to_carr(t) if ar.cdims(t.shape) is not None and len(t.shape) == 1 and cval(t.shape[0]) <= 16 else None
        if c is not None and c.args[0]:
            return (ar.smax if nm == 'max' else ar.smin)(list(c.args[0]))
        if t.op == 'lin' and not t.args[0]:
            return ZERO
    sh = tuple(d for i, d in enumerate(t.shape) if i not in axes)
    r = intern('red', (nm, t, axes if len(axes) < len(t.shape) else None), sh)
    if kd:
        return ar.reshape_ix(r, t.shape, axes, tuple(ONE if i in axes else d for i, d in enumerate(t.shape)))
    return r


@fn('numpy.max numpy.amax numpy.nanmax', 'a axis= out= keepdims= initial= where=')
def _max(I, st, node, p):
    return _red(I, st, node, p, lambda t, ax, kd: _reduce_ext(t, 'max', ax, kd))


@fn('numpy.min numpy.amin numpy.nanmin', 'a axis= out= keepdims= initial= where=')
def _min(I, st, node, p):
    return _red(I, st, node, p, lambda t, ax, kd: _reduce_ext(t, 'min', ax, kd))


@fn('numpy.prod numpy.nansum numpy.nanmean', RED)
def _prod(I, st, node, p):
    nm = p['@']

    def f(t, ax, kd):
        if nm == 'prod' and t.op == 'carr' and ax is None:
            r = ONE
            for x in t.args[0]:
                r = s_mul(r, x)
            return r
        return _reduce_ext(t, nm, ax, kd)
    return _red(I, st, node, p, f)


@fn('numpy.std numpy.var', 'a axis= dtype= out= ddof= keepdims=')
def _std(I, st, node, p):
    nm = p['@']
    return _red(I, st, node, p, lambda t, ax, kd: _reduce_ext(t, nm, ax, kd))


@fn('numpy.argmax numpy.argmin', 'a axis= out= keepdims=')
def _argmax(I, st, node, p):
    nm = p['@']
    r = _red(I, st, node, p, lambda t, ax, kd: _reduce_ext(t, nm, ax, kd))
    if isinstance(r, Ref) and isinstance(st.heap[r.loc], Arr):
        c = st.heap[r.loc]
        st.heap[r.loc] = Arr(c.term, c.origin, 'i')
    return r


@fn('numpy.all numpy.any numpy.alltrue', 'a axis= out= keepdims= where=')
def _npall(I, st, node, p):
    nm = 'any' if p['@'] == 'any' else 'all'
    t = tt(I, st, p.a)
    if p.axis is None and p.where is None:
        if t.shape == ():
            return I.truth(st, t)
        return quant(nm, t)
    return opaque(I, st, nm, [t, p.axis], None, 'b')


@fn('numpy.trace', 'a offset= axis1= axis2= dtype= out=')
def _trace(I, st, node, p):
    t = tt(I, st, p.a)
    if t.shape is None or p.offset is not None:
        return ar.ext('trace', (t, tt(I, st, p.offset), tt(I, st, p.axis1), tt(I, st, p.axis2)), ())
    return I.new_arr(st, ar.trace(t))


@fn('numpy.cumsum numpy.cumprod numpy.diff numpy.flip numpy.flipud numpy.fliplr numpy.triu numpy.tril numpy.ptp '
    'numpy.nonzero numpy.unique numpy.argsort numpy.bincount numpy.histogram numpy.median numpy.argwhere '
    'numpy.flatnonzero numpy.take numpy.digitize numpy.isin numpy.pad numpy.percentile numpy.quantile numpy.searchsorted '
    'numpy.outer_ numpy.cov numpy.atleast_2d numpy.take_along_axis numpy.delete numpy.append numpy.split '
    'numpy.ix_ numpy.indices numpy.meshgrid numpy.tensordot numpy.kron numpy.apply_along_axis numpy.select '
    'numpy.add.at numpy.vectorize numpy.lexsort numpy.partition numpy.interp numpy.sum_ numpy.array_split',
    '*args **kw')
def _opq(I, st, node, p):
    nm = p['@']
    args = list(p.get('*') or [])
    ts = [tt(I, st, a) for a in args]
    for k in sorted(k for k in p if k not in ('*', 'out', '@')):
        ts += [const(k), tt(I, st, p[k])]
    I.event(st, 'unmodelled', node, name='numpy.' + nm)
    sh = None
    if nm in ('argsort', 'flip', 'flipud', 'fliplr', 'triu', 'tril', 'isin') and ts and ts[0].shape is not None:
        sh = ts[0].shape
    if nm in ('cumsum', 'cumprod') and ts and ts[0].shape is not None and len(ts[0].shape) == 1:
        sh = ts[0].shape
    if nm == 'at':
        a = args[0]
        if isinstance(a, Ref) and isinstance(st.heap[a.loc], Arr):
            t = I.read(st, a)
            I.write(st, a, ar.ext('add.at', ts, t.shape), node)
        return NONE
    return put(I, st, p.out, ar.ext('numpy.' + nm, ts, sh), node)


@fn('numpy.sort', 'a axis= kind= order=')
def _sort(I, st, node, p):
    t = tt(I, st, p.a)
    c = ar.to_carr(t) if t.shape is not None and len(t.shape) == 1 and ar.cdims(t.shape) is not None and cval(t.shape[0]) <= 16 else None
    if c is not None and all(is_num_const(q) for q in c.args[0]):
        return I.new_arr(st, ar.carr(sorted(c.args[0], key=cval), t.shape), I.dtype(st, p.a))
    return I.new_arr(st, intern('sort', (t, tt(I, st, p.axis)), t.shape), I.dtype(st, p.a))


# ------------------------------------------------------------------ numpy: linear algebra

@fn('numpy.dot', 'a b out=')
def _dot(I, st, node, p):
    a, b = tt(I, st, p.a), tt(I, st, p.b)
    from .interp import promote
    return put(I, st, p.out, ar.dot(a, b), node, promote(I.dtype(st, p.a), I.dtype(st, p.b)))


@fn('numpy.matmul', U2)
def _matmul(I, st, node, p):
    a, b = tt(I, st, p.x1), tt(I, st, p.x2)
    from .interp import promote
    return put(I, st, p.out, ar.dot(a, b), node, promote(I.dtype(st, p.x1), I.dtype(st, p.x2)))


@fn('numpy.inner numpy.vdot', 'a b')
def _inner(I, st, node, p):
    a, b = tt(I, st, p.a), tt(I, st, p.b)
    if a.shape is None or b.shape is None:
        return ar.ext('inner', (a, b))
    if p['@'] == 'vdot':
        return ar.reduce_sum(ar.mul(_ravel(a), _ravel(b)), None)
    return I.new_arr(st, ar.dot(a, ar.T(b)))


@fn('numpy.outer', 'a b out=')
def _outer(I, st, node, p):
    a, b = tt(I, st, p.a), tt(I, st, p.b)
    if a.shape is None or b.shape is None:
        return opaque(I, st, 'outer', [a, b])
    a, b = _ravel(a), _ravel(b)
    return put(I, st, p.out, ar.mul(ar.index(a, (('a',), ('n',))), ar.index(b, (('n',), ('a',)))), node)


@fn('numpy.linalg.norm', 'x ord= axis= keepdims=')
def _norm(I, st, node, p):
    t = tt(I, st, p.x)
    o = p.ord if p.ord is not None else NONE
    ax = axis_of(I, st, p.axis)
    if t.shape is None or ax == 'opaque':
        return opaque(I, st, 'norm', [t, o, p.axis], () if p.axis is None else None)
    two = o is NONE or (o.op == 'const' and (cval(o) == 'fro' and len(t.shape) == 2 or
                                             cval(o) == 2 and (len(t.shape) == 1 or isinstance(ax, int))))
    if two:
        return I.new_arr(st, ar.sqrt(ar.reduce_sum(ar.mul(t, t), ax, flag(p.keepdims))), 'f')
    return opaque(I, st, 'norm', [t, o, p.axis], () if ax is None else None)


@fn('numpy.linalg.lstsq scipy.linalg.lstsq', 'a b rcond= cond=')
def _lstsq(I, st, node, p):
    a, b = tt(I, st, p.a), tt(I, st, p.b)
    I.sync(st)
    if a.shape is None or b.shape is None:
        sol = ar.ext('lstsq', (a, b))
    else:
        if not ar.dim_eq(a.shape[0], b.shape[0]):
            ar.issue('lstsq', a=a.shape, b=b.shape)
        sol = intern('lstsq', (a, b), (a.shape[1],) + tuple(b.shape[1:]))
    return Tup([I.new_arr(st, sol, 'f'), opaque(I, st, 'lstsq.resid', [a, b]), ar.ext('lstsq.rank', (a,), ()),
                opaque(I, st, 'lstsq.sv', [a])])


@fn('numpy.linalg.inv numpy.linalg.pinv scipy.linalg.inv', 'a rcond= hermitian=')
def _inv(I, st, node, p):
    t = tt(I, st, p.a)
    if t.shape is not None and len(t.shape) == 2 and not ar.dim_eq(t.shape[0], t.shape[1]):
        ar.issue('inv', a=t.shape, b=())
    if p['@'] == 'inv':
        I.event(st, 'solve', node, matrix=t)
    return I.new_arr(st, intern('inv', (t,), t.shape), 'f')


@fn('numpy.linalg.solve scipy.linalg.solve', 'a b')
def _solve(I, st, node, p):
    a, b = tt(I, st, p.a), tt(I, st, p.b)
    I.event(st, 'solve', node, matrix=a)
    return I.new_arr(st, intern('solve', (a, b), b.shape), 'f')


@fn('numpy.linalg.det numpy.linalg.cond numpy.linalg.matrix_rank', 'a p=')
def _det(I, st, node, p):
    return ar.ext('det', (tt(I, st, p.a),), ())


@fn('numpy.linalg.eigh numpy.linalg.eig numpy.linalg.svd numpy.linalg.qr numpy.linalg.cholesky', 'a *args **kw')
def _decomp(I, st, node, p):
    nm = p['@']
    t = tt(I, st, p.a)
    I.event(st, 'unmodelled', node, name='numpy.linalg.' + nm)
    if nm == 'cholesky':
        return I.new_arr(st, ar.ext(nm, (t,), t.shape), 'f')
    return Tup([opaque(I, st, nm + str(i), [t]) for i in range(3 if nm == 'svd' else 2)])


@fn('numpy.linalg.matrix_power', 'a n')
def _mpow(I, st, node, p):
    t, n = tt(I, st, p.a), tt(I, st, p.n)
    if is_num_const(n) and 0 <= cval(n) <= 4 and t.shape:
        r = ar.eye(t.shape[0])
        for _ in range(cval(n)):
            r = ar.dot(r, t)
        return I.new_arr(st, r, 'f')
    return I.new_arr(st, intern('matpow', (t, n), t.shape), 'f')


@fn('numpy.einsum', 'subscripts *operands out= dtype= order= casting= optimize=')
def _einsum(I, st, node, p):
    ops = list(p.get('*') or [])
    ts = [tt(I, st, x) for x in ops]
    s = p.subscripts
    if not (isinstance(s, Term) and s.op == 'const') or any(t.shape is None for t in ts):
        return opaque(I, st, 'einsum', [s] + ts)
    r = einsum(cval(s).replace(' ', ''), ts)
    if r is None:
        return opaque(I, st, 'einsum', [s] + ts)
    return put(I, st, p.out, r, node, 'f')


def einsum(spec, ts):
    """Contract pairwise into dots, elementwise products and sums; None if out of reach."""
    if '->' not in spec:
        ins = spec.split(',')
        allc = ''.join(ins)
        out = ''.join(sorted(c for c in set(allc) if allc.count(c) == 1))
    else:
        lhs, out = spec.split('->')
        ins = lhs.split(',')
    if len(ins) != len(ts) or any(len(i) != len(t.shape) for i, t in zip(ins, ts)):
        ar.issue('einsum', a=tuple(), b=tuple())
        return None
    dims = {}
    for i, t in zip(ins, ts):
        for c, d in zip(i, t.shape):
            if c in dims and not ar.dim_eq(dims[c], d):
                ar.issue('einsum', a=(dims[c],), b=(d,))
            dims.setdefault(c, d)
    cur = list(zip(ins, ts))

    def reduce1(ix, t, keep):
        # repeated index: diagonal; dropped index: sum
        if len(set(ix)) != len(ix):
            if len(ix) == 2:
                return reduce1(ix[0], ar.diagonal(t), keep)
            return None
        for c in list(ix):
            if c not in keep:
                k = ix.index(c)
                t = ar.reduce_sum(t, k)
                ix = ix[:k] + ix[k + 1:]
        return ix, t
    # drop the identity operands
    while len(cur) > 1:
        for k, (ix, t) in enumerate(cur):
            if t.op == 'eye' and len(set(ix)) == 2:
                a, b = ix
                rest = [x for j, x in enumerate(cur) if j != k]
                if a in out and b in out:
                    continue
                src, dst = (b, a) if a in out else (a, b)
                cur = [(i.replace(src, dst), u) for i, u in rest]
                break
        else:
            break
    while len(cur) > 1:
        ix1, t1 = cur.pop(0)
        ix2, t2 = cur.pop(0)
        rest = ''.join(i for i, _ in cur) + out
        shared = [c for c in ix1 if c in ix2]
        contract = [c for c in shared if c not in rest]
        if len(ix1) == 2 and len(ix2) == 2 and len(shared) == 1 and len(contract) == 1:
            c = contract[0]
            A = t1 if ix1[1] == c else ar.T(t1)
            B = t2 if ix2[0] == c else ar.T(t2)
            r = (ix1.replace(c, '') + ix2.replace(c, ''), ar.dot(A, B))
        elif len(ix2) == 1 and len(ix1) == 2 and len(contract) == 1 and contract == shared:
            c = contract[0]
            A = t1 if ix1[1] == c else ar.T(t1)
            r = (ix1.replace(c, ''), ar.dot(A, t2))
        elif len(ix1) == 1 and len(ix2) == 2 and len(contract) == 1 and contract == shared:
            c = contract[0]
            B = t2 if ix2[1] == c else ar.T(t2)
            r = (ix2.replace(c, ''), ar.dot(B, t1))
        else:
            union = ix1 + ''.join(c for c in ix2 if c not in ix1)
            if len(set(ix1)) != len(ix1) or len(set(ix2)) != len(ix2) or len(union) > 3:
                return None

            def spread(ix, t):
                order = [ix.index(c) for c in union if c in ix]
                if order != sorted(order):
                    t = ar.transpose_axes(t, tuple(order))
                return ar.index(t, tuple(('a',) if c in ix else ('n',) for c in union)) if len(ix) < len(union) else t
            r = (union, ar.mul(spread(ix1, t1), spread(ix2, t2)))
            rr = reduce1(r[0], r[1], rest)
            if rr is None:
                return None
            r = rr
        cur.insert(0, r)
    ix, t = cur[0]
    rr = reduce1(ix, t, out)
    if rr is None:
        return None
    ix, t = rr
    if sorted(ix) != sorted(out):
        return None
    if ix != out:
        t = ar.transpose_axes(t, tuple(ix.index(c) for c in out))
    return t


@fn('scipy.spatial.distance.cdist sklearn.metrics.pairwise_distances', '*args **kw')
def _cdist(I, st, node, p):
    I.event(st, 'unmodelled', node, name='cdist')
    return opaque(I, st, 'cdist', p.get('*') or [])


@fn('math.isclose', 'a b * rel_tol= abs_tol=')
def _misclose(I, st, node, p):
    return intern('isclose', (tt(I, st, p.a), tt(I, st, p.b), tt(I, st, p.rel_tol), tt(I, st, p.abs_tol)), ())


@fn('numpy.isscalar', 'x')
def _isscalar(I, st, node, p):
    return const(isinstance(p.x, Term) and p.x.shape == ())


@fn('numpy.ndim numpy.shape numpy.size', 'a')
def _npshape(I, st, node, p):
    t = tt(I, st, p.a)
    return _arr_attr_term(I, st, t, p['@'], None, node)


@fn('numpy.copyto', 'dst src casting= where=')
def _copyto(I, st, node, p):
    if isinstance(p.dst, Ref) and isinstance(st.heap[p.dst.loc], Arr):
        t = I.read(st, p.dst)
        s = tt(I, st, p.src)
        if p.where is not None or t.shape is None or s.shape is None:
            I.write(st, p.dst, ar.ext('copyto', (t, s, tt(I, st, p.where)), t.shape), node)
        else:
            I.write(st, p.dst, ar.bcast(s, t.shape), node)
    return NONE


@fn('numpy.fill_diagonal', 'a val wrap=')
def _fdiag(I, st, node, p):
    if isinstance(p.a, Ref) and isinstance(st.heap[p.a.loc], Arr):
        t = I.read(st, p.a)
        v = tt(I, st, p.val)
        if t.shape is not None and len(t.shape) == 2 and ar.dim_eq(t.shape[0], t.shape[1]) and v.shape == ():
            n = t.shape[0]
            r = ar.add(ar.sub(t, ar.diag(ar.diagonal(t))), ar.scale(ar.eye(n), v))
        else:
            r = ar.ext('fill_diagonal', (t, v), t.shape)
        I.write(st, p.a, r, node)
    return NONE


@fn('numpy.float64 numpy.float32 numpy.int64 numpy.int32 numpy.intp numpy.bool_ numpy.dtype', 'x= y=')
def _npscalar(I, st, node, p):
    nm = p['@']
    if nm == 'dtype':
        d = dt(I, st, p.x)
        return intern('dtype', (const(d),), ()) if d else ar.ext('dtypeof', (tt(I, st, p.x),), ())
    t = tt(I, st, p.x)
    if nm.startswith('float'):
        return t if t.shape == () else p.x
    return t if prove.is_int(t) else intern('toint', (t,), ())


@fn('numpy.finfo numpy.iinfo', 'dtype')
def _finfo(I, st, node, p):
    at = {'eps': tm.atom('eps', (), kind='float', lo=0, hi=const(1e-6) and 1e-6), 'tiny': tm.atom('tiny', (), kind='float', lo=0),
          'max': tm.atom('fmaxval', (), kind='float', lo=1), 'min': tm.atom('fminval', (), kind='float')}
    return I.alloc(st, XObj('finfo', at, const('finfo')), 'x')


@fn('numpy.errstate numpy.seterr', '*args **kw')
def _errstate(I, st, node, p):
    return I.alloc(st, XObj('ctx', {}, const('errstate')), 'x')


@fn('functools.partial', 'f *args **kw')
def _partial(I, st, node, p):
    I.event(st, 'unmodelled', node, name='functools.partial')
    return ar.ext('partial', ())


@fn('itertools.product', '*args repeat=')
def _product(I, st, node, p):
    pools = [I.concrete_items(st, a) for a in (p.get('*') or [])]
    if all(x is not None for x in pools) and p.repeat is None:
        out = [()]
        for pool in pools:
            out = [o + (x,) for o in out for x in pool]
        return I.alloc(st, Lst(tuple(Tup(o) for o in out)), 'l')
    I.event(st, 'opaque-iter', node)
    return ar.ext('product', ())


# ------------------------------------------------------------------ summaries proven elsewhere

def sum_simplex_vector(I, st, f, args, kwargs, node):
    if I.options.get('no_simplex_summary'):
        return None
    names = [a.arg for a in f.node.args.args]
    v = dict(zip(names, args))
    v.update(kwargs)
    if set(v) - set(names) or not names or names[0] not in v:
        return None
    x = tt(I, st, strip(v[names[0]]))
    I.sync(st)
    out = strip(v.get(names[1])) if len(names) > 1 else None
    r = intern('simproj', (x,), x.shape)
    res = put(I, st, out, r, node, 'f')
    I.drain_issues(st, node)
    return res


def sum_furthest(I, st, f, args, kwargs, node):
    if I.options.get('no_fsum_summary'):
        return None
    vars_ = I.bind(st, f, args, kwargs, node, False)
    names = [a.arg for a in f.node.args.args]
    if len(names) < 5:
        return None
    D = tt(I, st, vars_[names[0]])
    n = tt(I, st, vars_[names[1]])
    start = tt(I, st, vars_[names[2]])
    excl = vars_[names[3]]
    I.event(st, 'call-summary', node, name='furthest_sum', D=D, n=n, start=start, exclude=tt(I, st, excl),
            steps=tt(I, st, vars_[names[4]]))
    t = intern('fsum', (D, n, start, tt(I, st, excl), tt(I, st, vars_[names[4]])), (n,))
    return I.new_arr(st, t, 'i')


SUMMARIES = {('reor.simplex_projection', 'simplex_project_vector'): sum_simplex_vector,
             ('reor.furthest_sum', 'furthest_sum'): sum_furthest}
