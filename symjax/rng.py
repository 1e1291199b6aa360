"""Environment stubs: jax.random replaced by contract primitives on raw uint32[...,2] keys.

Every stub records only what the jax.random documentation promises: split/fold_in give fresh independent keys,
uniform is U[0,1), normal is N(0,1), choice draws index i with probability p_i, ...
The patch must be installed before fbs is imported.
"""
import functools
import numpy as np
import operator
import jax
import jax.numpy as jnp
from jax.core import Primitive, ShapedArray
from jax.interpreters import batching, mlir, ad

PRIMS = {}


def _mkprim(name, out):
    p = Primitive('rng_' + name)

    def abs_eval(key, *rest, **kw):
        kb = key.shape[:-1]
        shape, dtype = out(**kw)
        return ShapedArray(kb + shape, dtype)

    p.def_abstract_eval(abs_eval)

    def impl(*a, **kw):
        raise RuntimeError('stubbed random draw executed concretely')
    p.def_impl(impl)

    def batch(args, dims, **kw):
        size = next(a.shape[d] for a, d in zip(args, dims) if d is not batching.not_mapped)
        nargs = []
        for k, (a, d) in enumerate(zip(args, dims)):
            if d is batching.not_mapped:
                a = jnp.broadcast_to(a, (size,) + a.shape)
            else:
                a = jnp.moveaxis(a, d, 0)
            nargs.append(a)
        # key batch dims are the leading ones; other args carry the same leading dims
        return p.bind(*nargs, **kw), 0
    batching.primitive_batchers[p] = batch

    def jvp(primals, tangents, **kw):
        o = p.bind(*primals, **kw)
        return o, ad.Zero(jax.core.get_aval(o).at_least_vspace())
    ad.primitive_jvps[p] = jvp
    PRIMS[p.name] = p
    return p


f64 = np.dtype('float64')
i64 = np.dtype('int64')
split_p = _mkprim('split', lambda n: ((n, 2), np.dtype('uint32')))
fold_p = _mkprim('fold_in', lambda: ((2,), np.dtype('uint32')))
seed_p = _mkprim('seed', lambda: ((2,), np.dtype('uint32')))
uniform_p = _mkprim('uniform', lambda shape: (shape, f64))
normal_p = _mkprim('normal', lambda shape: (shape, f64))
randint_p = _mkprim('randint', lambda shape: (shape, i64))
choice_p = _mkprim('choice', lambda shape, n: (shape, i64))        # args key, p
perm_p = _mkprim('perm', lambda n, k: ((k,), i64))


def _key(key):
    key = jnp.asarray(key)
    return key


def _shape(shape):
    if isinstance(shape, (int, np.integer)):
        return (int(shape),)
    return tuple(int(s) for s in shape)


def split(key, num=2):
    n = _shape(num)
    key = _key(key)
    m = int(np.prod(n)) if n else 1
    r = split_p.bind(key, n=m)
    if len(n) != 1:
        r = jnp.reshape(r, (*n, 2))
    return r


def fold_in(key, data):
    key = _key(key)
    return fold_p.bind(key, jnp.asarray(data))


def PRNGKey(seed, **kw):
    return seed_p.bind(jnp.zeros((2,), 'uint32'), jnp.asarray(seed))


def _dt(x, dtype):
    if dtype is None or np.dtype(dtype) == f64:
        return x
    return x.astype(dtype)


def uniform(key, shape=(), dtype=None, minval=0., maxval=1.):
    u = uniform_p.bind(_key(key), shape=_shape(shape))
    if isinstance(minval, (int, float)) and isinstance(maxval, (int, float)) and minval == 0 and maxval == 1:
        return _dt(u, dtype)
    return _dt(minval + u * (jnp.asarray(maxval) - jnp.asarray(minval)), dtype)


def normal(key, shape=(), dtype=None):
    return _dt(normal_p.bind(_key(key), shape=_shape(shape)), dtype)


def randint(key, shape, minval, maxval, dtype=None):
    key = _key(key)
    lo = jnp.asarray(minval).astype(i64)
    hi = jnp.asarray(maxval).astype(i64)
    shape = _shape(shape)
    r = randint_p.bind(key, jnp.broadcast_to(lo, shape) if lo.ndim else lo,
                       jnp.broadcast_to(hi, shape) if hi.ndim else hi, shape=shape)
    return r if dtype is None else r.astype(dtype)


def choice(key, a, shape=(), replace=True, p=None, axis=0, **kw):
    key = _key(key)
    shape = _shape(shape)
    arr = jnp.asarray(a)
    n = int(a) if arr.ndim == 0 else arr.shape[axis]
    k = int(np.prod(shape)) if shape else 1
    if not replace:
        if p is not None:
            raise NotImplementedError('choice without replacement with p')
        if k > n:
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        idx = perm_p.bind(key, n=n, k=k).reshape(shape)
    elif p is None:
        idx = randint_p.bind(key, jnp.asarray(0), jnp.asarray(n), shape=shape)
    else:
        p = jnp.asarray(p)
        if p.shape != (n,):
            raise ValueError(f'p must be None or match the shape of a: {p.shape} {n}')
        idx = choice_p.bind(key, p, shape=shape, n=n)
    if arr.ndim == 0:
        return idx
    return jnp.take(arr, idx, axis=axis)


def categorical(key, logits, axis=-1, shape=None):
    logits = jnp.moveaxis(jnp.asarray(logits), axis, -1)
    p = jax.nn.softmax(logits, axis=-1)
    n = logits.shape[-1]
    if logits.ndim == 1:
        return choice_p.bind(_key(key), p, shape=_shape(shape or ()), n=n)
    if shape is not None and _shape(shape) != logits.shape[:-1]:
        raise NotImplementedError
    flat = p.reshape(-1, n)
    keys = split_p.bind(_key(key), n=flat.shape[0])
    return choice_p.bind(keys, flat, shape=(), n=n).reshape(logits.shape[:-1])


def bernoulli(key, p=0.5, shape=None):
    p = jnp.asarray(p)
    return uniform(key, p.shape if shape is None else shape) < p


def permutation(key, x, axis=0, independent=False):
    scalar = jnp.ndim(x) == 0
    n = operator.index(x) if scalar else jnp.shape(x)[axis]
    idx = perm_p.bind(_key(key), n=n, k=n)
    return idx if scalar else jnp.take(jnp.asarray(x), idx, axis=axis)


def exponential(key, shape=(), dtype=None):
    return -jnp.log1p(-uniform(key, shape, dtype))


def gumbel(key, shape=(), dtype=None):
    return -jnp.log(-jnp.log(uniform(key, shape, dtype)))


def _no(name):
    def f(*a, **k):
        raise NotImplementedError(f'no contract stub for jax.random.{name}')
    return f


ACTIVE = [False]


class active:
    """Stubs are only in force inside this context (tracing of the code under check)."""
    def __enter__(self):
        self.old = ACTIVE[0]
        ACTIVE[0] = True

    def __exit__(self, *a):
        ACTIVE[0] = self.old


def _switch(stub, orig):
    @functools.wraps(orig)
    def f(*a, **k):
        return (stub if ACTIVE[0] else orig)(*a, **k)
    return f


def install():
    import jax._src.random as jr
    g = globals()
    for nm in ('split', 'fold_in', 'uniform', 'normal', 'randint', 'choice', 'categorical', 'bernoulli',
               'permutation', 'PRNGKey', 'exponential', 'gumbel'):
        f = _switch(g[nm], getattr(jr, nm))
        setattr(jax.random, nm, f)
        setattr(jr, nm, f)
    for nm in ('gamma', 'beta', 'cauchy', 'dirichlet', 'laplace', 'logistic', 'multivariate_normal', 'poisson',
               'rademacher', 'truncated_normal', 't', 'bits', 'ball', 'maxwell', 'orthogonal', 'generalized_normal'):
        if hasattr(jax.random, nm):
            setattr(jax.random, nm, _switch(_no(nm), getattr(jax.random, nm)))
