"""Runs an experiment script of the repository as a function: every top-level statement of the current file is executed
(also inside a jax trace, where its arrays become symbolic), with

  * the library entry points it calls replaced by recorders (arguments kept, fresh random values of the right shape
    returned), so that what the script hands to the library and what it stores is observed, not how it is written,
  * jit the identity, math.sqrt the traced one, numpy arrays that accept traced values, files and plots stubbed,
  * the step count shrunk (a stated bound)."""
import ast
import builtins
import importlib
import inspect
import os
import re
import string
import sys
import types
import numpy as real_np
import jax
import jax.numpy as jnp
from . import common


class Shim(types.ModuleType):
    def __init__(self, real, **over):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, k):
        if k == '_real':
            raise AttributeError(k)
        return getattr(self.__dict__['_real'], k)


class Null:
    def __init__(self, name=''):
        self.__name__ = name

    def __getattr__(self, k):
        return Null(k) if not k.startswith('__') else object.__getattribute__(self, k)

    def __call__(self, *a, **k):
        return Null()

    def __iter__(self):
        return iter((Null(), Null()))

    def __getitem__(self, i):
        return Null()

    def __enter__(self):
        return Null()

    def __exit__(self, *a):
        return False


class TArr:
    """np.zeros target that accepts traced values."""
    def __init__(self, shape, fill=None):
        self.v = jnp.zeros(shape) if fill is None else jnp.full(shape, fill)

    def __setitem__(self, i, x):
        self.v = self.v.at[i].set(x)

    def __getitem__(self, i):
        return self.v[i]

    @property
    def shape(self):
        return self.v.shape

    def __jax_array__(self):
        return self.v

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return iter(self.v)

    def __getattr__(self, k):
        if k.startswith('__') or k == 'v':
            raise AttributeError(k)
        return getattr(self.v, k)


def _binary(name):
    return lambda self, o: getattr(self.v, name)(o.v if isinstance(o, TArr) else o)


for _n in ('add', 'sub', 'mul', 'truediv', 'pow', 'matmul'):
    for _p in ('', 'r'):
        setattr(TArr, f'__{_p}{_n}__', _binary(f'__{_p}{_n}__'))
TArr.__neg__ = lambda self: -self.v


def traced(x):
    """is some leaf of the value symbolic?"""
    return any(isinstance(q, (TArr, jax.core.Tracer))
               for q in jax.tree_util.tree_leaves(x, is_leaf=lambda q: isinstance(q, TArr)))


def opened(x):
    return jax.tree_util.tree_map(lambda q: q.v if isinstance(q, TArr) else q, x, is_leaf=lambda q: isinstance(q, TArr))


class Lib(Shim):
    """a library module some of whose functions are replaced, submodules included"""
    def __getattr__(self, k):
        v = Shim.__getattr__(self, k)
        return self.__dict__['_shim'](v) if isinstance(v, types.ModuleType) else v


class NumPy(Shim):
    """numpy whose functions hand symbolic arguments to their jax.numpy namesakes"""
    def __getattr__(self, k):
        f = getattr(real_np, k)
        g = getattr(jnp, k, None)
        if isinstance(f, type) or not callable(f) or g is None:
            return f

        def h(*a, **kw):
            if not (traced(a) or traced(kw)):
                return f(*a, **kw)
            a, kw = opened(a), opened(kw)
            if k in ('array', 'asarray', 'ascontiguousarray', 'copy'):
                return jnp.stack(list(map(jnp.asarray, a[0]))) if isinstance(a[0], (list, tuple)) else jnp.asarray(a[0])
            kw.pop('out', None)
            if a and isinstance(a[0], (list, tuple)) and k not in SEQUENCES:
                a = (jnp.stack(list(map(jnp.asarray, a[0]))), *a[1:])
            return g(*a, **kw)
        return h


SEQUENCES = ('stack', 'concatenate', 'vstack', 'hstack', 'dstack', 'column_stack', 'block', 'einsum', 'broadcast_arrays', 'ix_', 'select')


class File(dict):
    """what np.load returns for an archive"""
    @property
    def files(self):
        return list(self)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)


class Float(metaclass=_FloatMeta):
    """the builtin float, leaving symbolic values alone"""
    def __new__(cls, x=0.):
        return x if traced(x) else float(x)


def fmt(x, spec=''):
    return '?' if traced(x) else format(x, spec)


def plain(x):
    """leave vmap tracers of finished maps: the batched array, mapped axes first"""
    from jax.interpreters.batching import BatchTracer, not_mapped
    live = jax.core.thread_local_state.trace_state.trace_stack.stack
    while isinstance(x, BatchTracer) and not any(m is x._trace.main for m in live):
        b, x = x.batch_dim, x.val
        if b is not not_mapped:
            x = jnp.moveaxis(x, b, 0)
    return x


def lift(c):
    """a float literal of the script: the exact real number it denotes (kept symbolic while tracing)"""
    from symjax import rng
    return _lift.bind(v=float(c)) if rng.ACTIVE[0] else c


_lift = jax.core.Primitive('lit')
_lift.def_abstract_eval(lambda v: jax.core.ShapedArray((), real_np.dtype('float64')))


def _install():
    import numpy as np
    from jax.interpreters import batching, ad
    from symjax.interp import DET, ideal, obj
    DET['lit'] = lambda eqn, ins: obj((), [ideal(eqn.params['v'])], 'float64')
    batching.primitive_batchers[_lift] = lambda a, d, v: (_lift.bind(v=v), batching.not_mapped)


_install()


class Call:
    def __init__(self, args, ret=None, extra=()):
        self.args, self.ret, self.extra = args, ret, dict(extra)

    def __getitem__(self, k):
        return plain(self.args[k])

    @property
    def result(self):
        return jax.tree_util.tree_map(plain, self.ret)


class Run:
    def __init__(self):
        self.calls = {}
        self.saved = []
        self.ns = {}

    def all(self, name):
        return self.calls.get(name, [])

    def one(self, name, k=0):
        c = self.all(name)
        if len(c) <= k:
            raise LookupError(f'the script never calls {name}')
        return c[k]


class Drop(ast.NodeTransformer):
    def __init__(self, ints, exact=True, prints=False):
        self.ints, self.exact, self.prints = ints, exact, prints

    def visit_Constant(self, n):
        if isinstance(n.value, float) and self.exact:
            return ast.copy_location(ast.Call(ast.Name('__lift__', ast.Load()), [ast.Constant(n.value)], []), n)
        return n

    def visit_JoinedStr(self, n):
        for q in n.values:
            if isinstance(q, ast.FormattedValue) and q.conversion == -1:
                spec = q.format_spec if q.format_spec is not None else ast.Constant('')
                q.value = ast.copy_location(ast.Call(ast.Name('__fmt__', ast.Load()), [q.value, spec], []), q.value)
                q.format_spec = None
        return n

    def visit_Call(self, n):
        f = n.func
        if self.prints and isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant):
            n.func, n.args = ast.copy_location(ast.Name('__format__', ast.Load()), n), [f.value, *n.args]
        return self.generic_visit(n)

    def visit_BinOp(self, n):
        if self.prints and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(ast.Call(ast.Name('__percent__', ast.Load()), [n.left, self.visit(n.right)], []), n)
        return self.generic_visit(n)

    def visit_Expr(self, n):
        v = n.value
        if isinstance(v, ast.Call):
            f = v.func
            if isinstance(f, ast.Name) and f.id == 'print' and not self.prints:
                return ast.copy_location(ast.Pass(), n)
            s = ast.unparse(f)
            if s == 'jax.config.update':
                return ast.copy_location(ast.Pass(), n)
        return self.generic_visit(n)

    def shrunk(self, target, value):
        """the step count the script sets: known by its name, or by its size if the name has changed"""
        if isinstance(target, (ast.Tuple, ast.List)) and isinstance(value, (ast.Tuple, ast.List)):
            value.elts = [self.shrunk(t, v) for t, v in zip(target.elts, value.elts)]
        elif isinstance(target, ast.Name) and isinstance(value, ast.Constant) and type(value.value) in (int, str):
            if target.id in self.ints and type(self.ints[target.id]) is type(value.value):
                return ast.copy_location(ast.Constant(self.ints[target.id]), value)
            if 'runs' in self.ints and value.value == 100 and 'part' not in target.id:
                return ast.copy_location(ast.Constant(self.ints['runs']), value)
            if 'nsteps' in self.ints and type(value.value) is int and value.value in (100, 200, 500):
                return ast.copy_location(ast.Constant(self.ints['nsteps']), value)
        return value

    def visit_Assign(self, n):
        n.value = self.shrunk(n.targets[0], n.value)
        return self.generic_visit(n)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.shrunk(n.target, n.value)
        return self.generic_visit(n)


def run(path, argv=(), stubs=None, ints=None, files=None, exact=True, jaxover=None, modules=None, npover=None, prints=False,
        **attrs):
    """stubs: {'fbs.samplers': {'bootstrap_filter': fn(real, bound_args) -> value}}; modules: replaced outright;
    prints: keep the printed lines (out.lines), formatted values as marks \x01index\x02 of out.vals"""
    rel = path
    path = os.path.join(common.REPO, path)
    src = open(path).read()
    ints = dict(ints or {})
    if 'max_mcs' in ints and 'max_mcs' not in src:      # renamed
        ints['runs'] = ints['max_mcs']
    tree = ast.fix_missing_locations(Drop(ints or {}, exact, prints).visit(ast.parse(src, path)))
    out = Run()
    out.__dict__.update(attrs)
    out.lines, out.vals = [], []

    def marked(x, spec=''):
        if isinstance(x, (str, int)):
            return format(x, spec)
        out.vals.append(x)
        return f'\x01{len(out.vals) - 1}\x02'

    class Marks(string.Formatter):
        def format_field(self, x, spec):
            return marked(x, spec)

    def percent(t, a):
        a = iter(a if isinstance(a, tuple) else (a,))
        return re.sub(r'%[-+ 0-9.]*([a-zA-Z%])', lambda q: '%' if q[1] == '%' else marked(next(a)), t)

    def printed(*a, sep=' ', **k):
        out.lines.append(sep.join(q if isinstance(q, str) else marked(q) for q in a))

    def recorder(name, real, fn):
        sig = inspect.signature(real)

        def rec(*a, **k):
            try:
                b = sig.bind(*a, **k)
            except TypeError:
                raise
            b.apply_defaults()
            args = dict(b.arguments)
            extra = {}
            for q in sig.parameters.values():
                if q.kind is q.VAR_KEYWORD:
                    extra.update(args.pop(q.name, {}))
            args.update(extra)
            c = Call(args, extra=extra)
            out.calls.setdefault(name, []).append(c)
            c.ret = fn(real, args, out) if fn else real(*a, **k)
            return c.ret
        return rec
    import math
    mods = {
        'math': Shim(math, sqrt=lambda x: jnp.sqrt(jnp.asarray(x, float))),
        'jax': Shim(jax, jit=lambda f=None, **k: f if f is not None else (lambda g: g),
                    device_get=lambda x: x, block_until_ready=lambda x: x, **(jaxover or {})),
    }

    def stored(v):
        return NumPy.__getattr__(npm, 'asarray')(v) if isinstance(v, (list, tuple)) else v.v if isinstance(v, TArr) else v

    def savez(f=None, *a, **k):
        f = k.pop('file', f)
        out.saved.append((f, a, {n: stored(v) for n, v in k.items()}))

    def load(f=None, *a, **k):
        v = files(k.pop('file', f))
        return File(v) if type(v) is dict else v
    npm = NumPy(real_np)
    npm.__dict__.update(
        zeros=lambda shape, **k: TArr(shape),
        empty=lambda shape, **k: TArr(shape),
        savez=savez, savez_compressed=savez,
        save=lambda f, arr, **k: out.saved.append((f, (stored(arr),), {})),
        full=lambda shape, fill_value, **k: TArr(shape, fill_value),
        zeros_like=lambda x, **k: TArr(real_np.shape(x)), empty_like=lambda x, **k: TArr(real_np.shape(x)),
        load=load, **(npover or {}))
    mods['numpy'] = npm
    mods['os'] = Shim(os, makedirs=lambda *a, **k: None, mkdir=lambda *a, **k: None)
    over = {n: recorder(n, getattr(jax.random, n), fn) for n, fn in (stubs or {}).get('jax.random', {}).items()}
    if out.__dict__.get('key') is not None:
        over['PRNGKey'] = over['key'] = lambda *a, **k: out.key
    mods['jax.random'] = mods['jax'].__dict__['random'] = Shim(jax.random, **over)
    known = {}                          # stubbed library objects, whichever module they are imported from
    for m, over in (stubs or {}).items():
        if m == 'jax.random':
            continue
        real = importlib.import_module(m)
        for n, fn in over.items():
            if hasattr(real, n):
                f = getattr(real, n)
                known.setdefault(id(f), (f, recorder(n, f, fn)))
    roots = {m.split('.')[0] for m in (stubs or {})} - {'jax', 'numpy', 'math'}

    def shim(m):
        if m.__name__ not in mods:
            q = mods[m.__name__] = Lib(m)
            q.__dict__['_shim'] = lambda v: shim(v) if v.__name__.split('.')[0] in roots else mods.get(v.__name__, v)
            q.__dict__.update({n: known[id(v)][1] for n, v in vars(m).items() if id(v) in known})
        return mods[m.__name__]

    def imp(name, g=None, l=None, fromlist=(), level=0):
        if modules and name in modules:
            return modules[name] if fromlist or '.' not in name or name.split('.')[0] not in modules else modules[name.split('.')[0]]
        if name.startswith('matplotlib') or name.startswith('PIL') or name.startswith('seaborn'):
            return Null(name)
        m = mods.get(name) if fromlist or '.' not in name else None
        if m is not None:
            return m
        builtins.__import__(name, g, l, fromlist, level)
        m = sys.modules[name if fromlist else name.split('.')[0]]
        if name.split('.')[0] in roots:
            for n in fromlist or ():
                if isinstance(getattr(m, n, None), types.ModuleType):
                    shim(getattr(m, n))
            return shim(m)
        return mods.get(m.__name__, m)
    bi = dict(vars(builtins))
    bi['__import__'] = imp
    bi['__lift__'] = lift
    bi['print'] = printed if prints else lambda *a, **k: None
    bi['__format__'], bi['__percent__'] = Marks().format, percent
    bi['__fmt__'] = marked if prints else fmt
    bi['float'] = Float
    out.ns = {'__name__': '__main__', '__file__': path, '__builtins__': bi}
    old = sys.argv
    sys.argv = [rel] + [str(a) for a in argv]
    try:
        exec(compile(tree, path, 'exec'), out.ns)
    finally:
        sys.argv = old
    return out
