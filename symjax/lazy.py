"""Lazy symbolic execution of large-array code: an array is a function from a tuple of solver integers to a solver
term, so that arrays of any size (60000 x 784 ...) cost nothing and one query speaks about all their entries."""
import numpy as np
import jax
import jax.numpy as jnp
from jax import core
from .expr import SymError
from .smt import z3
from . import zexec as Z


class Arr:
    def __init__(self, shape, get):
        self.shape, self.get = tuple(shape), get


def const(a):
    a = np.asarray(a)
    if a.ndim and a.size > 4096:
        raise SymError('large constant array')

    def get(ix):
        if a.ndim == 0:
            return Z.conc(a)[()]
        if all(not Z.isz(i) for i in ix):
            return Z.conc(a[tuple(int(i) for i in ix)])[()]
        acc = None
        for j in np.ndindex(*a.shape):
            v = Z.conc(a[j])[()]
            acc = v if acc is None else Z.ite(Z.AND(*[Z.EQ(p, q) for p, q in zip(ix, j)]), v, acc)
        return acc
    return Arr(a.shape, get)


class Lazy:
    def __init__(self):
        self.perms = {}
        self.draws = {}
        self.asm = []
        self.nperm = []

    # ---------------------------------------------------------- draws
    def perm(self, path, n):
        """the permutation of range(n) drawn from a key: a function with an inverse, instantiated where applied"""
        k = (path, n)
        if k not in self.perms:
            f = z3.Function(f'perm_{Z.pname(path)}_{n}', z3.IntSort(), z3.IntSort())
            g = z3.Function(f'inv_{Z.pname(path)}_{n}', z3.IntSort(), z3.IntSort())
            self.perms[k] = (f, g)
        return self.perms[k]

    def apply_perm(self, path, n, i):
        f, g = self.perm(path, n)
        i = Z.num(i)
        r = f(i)
        self.asm += [z3.Implies(z3.And(i >= 0, i < n), z3.And(r >= 0, r < n, g(r) == i))]
        return r

    # ---------------------------------------------------------- driver
    def run(self, closed, args):
        return self.call(closed.jaxpr, [c if isinstance(c, Arr) else const(c) for c in closed.consts], args)

    def call(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if isinstance(v, core.Literal):
                return const(v.val)
            return env[v]
        env.update(zip(jaxpr.constvars, consts))
        env.update(zip(jaxpr.invars, args))
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            r = RULES.get(eqn.primitive.name)
            if r is None:
                msg = f'no lazy rule for {eqn.primitive.name}'
                outs = [Arr(v.aval.shape, lambda ix, m=msg: _fail(m)) for v in eqn.outvars]
            else:
                outs = r(self, eqn, ins)
                if isinstance(outs, Arr):
                    outs = [outs]
            env.update(zip(eqn.outvars, outs))
        return [read(v) for v in jaxpr.outvars]


def _fail(m):
    raise SymError(m)


RULES = {}


def rule(*names):
    def d(f):
        for n in names:
            RULES[n] = f
        return f
    return d


def elementwise(op):
    def f(self, eqn, ins):
        shp = eqn.outvars[0].aval.shape
        return Arr(shp, lambda ix: op(*[a.get(ix if a.shape else ()) for a in ins]))
    return f


def _sel(c, xs):
    if len(xs) != 2 or not Z.boolean(c):
        raise SymError('select_n over integers')
    return Z.ite(c, xs[1], xs[0])


for _n, _o in dict(add=Z.add, sub=Z.sub, mul=Z.mul, neg=Z.neg, max=Z.zmax, min=Z.zmin, lt=Z.cmp('<'), le=Z.cmp('<='),
                   gt=Z.cmp('>'), ge=Z.cmp('>='), eq=Z.EQ, ne=Z.NE, rem=Z.irem,
                   select_n=lambda c, *xs: _sel(c, xs)).items():
    RULES[_n] = elementwise(_o)
RULES['and'] = elementwise(lambda a, b: Z.AND(a, b))
RULES['or'] = elementwise(lambda a, b: Z.OR(a, b))
RULES['not'] = elementwise(lambda a: Z.NOT(a))


@rule('div')
def _div(self, eqn, ins):
    fl = np.issubdtype(eqn.outvars[0].aval.dtype, np.floating)
    return elementwise(Z.rdiv if fl else Z.idiv)(self, eqn, ins)


@rule('convert_element_type')
def _conv(self, eqn, ins):
    src, dst = eqn.invars[0].aval.dtype, np.dtype(eqn.params['new_dtype'])
    if np.issubdtype(src, np.floating) and not np.issubdtype(dst, np.floating):
        return elementwise(lambda v: Z.uf(f'cast_{dst}', v))(self, eqn, ins)      # drops information
    if np.issubdtype(dst, np.floating) and dst.itemsize < 4:
        return elementwise(lambda v: Z.uf(f'cast_{dst}', v))(self, eqn, ins)
    return ins[0]


@rule('copy', 'copy_p', 'device_put', 'stop_gradient', 'sharding_constraint', 'optimization_barrier')
def _id(self, eqn, ins):
    return ins[0]


@rule('pjit', 'closed_call', 'core_call', 'custom_jvp_call', 'custom_vjp_call', 'remat', 'checkpoint', 'named_call')
def _call(self, eqn, ins):
    j = eqn.params.get('jaxpr') or eqn.params.get('call_jaxpr') or eqn.params.get('fun_jaxpr')
    if hasattr(j, 'jaxpr'):
        return self.call(j.jaxpr, [const(c) for c in j.consts], ins)
    return self.call(j, [], ins)


@rule('broadcast_in_dim')
def _bcast(self, eqn, ins):
    a, bd = ins[0], eqn.params['broadcast_dimensions']
    return Arr(eqn.outvars[0].aval.shape,
               lambda ix: a.get(tuple(0 if a.shape[k] == 1 and eqn.outvars[0].aval.shape[d] != 1 else ix[d] for k, d in enumerate(bd))))


def linear(ix, shape):
    r = 0
    for i, s in zip(ix, shape):
        r = Z.add(Z.mul(r, s), i)
    return r


def delinear(k, shape):
    out = []
    for j, s in enumerate(shape):
        st = int(np.prod(shape[j + 1:], dtype=int))
        v = k if st == 1 else Z.idiv(k, st)
        out.append(v if j == 0 else Z.irem(v, s))
    return tuple(out)


@rule('reshape')
def _reshape(self, eqn, ins):
    a, shp = ins[0], eqn.outvars[0].aval.shape
    # leading dimensions shared by both shapes are kept as they are
    p = 0
    while p < min(len(shp), len(a.shape)) and shp[p] == a.shape[p]:
        p += 1
    return Arr(shp, lambda ix: a.get(tuple(ix[:p]) + delinear(linear(ix[p:], shp[p:]), a.shape[p:])))


@rule('squeeze')
def _squeeze(self, eqn, ins):
    a, dims = ins[0], eqn.params['dimensions']

    def get(ix):
        it = iter(ix)
        return a.get(tuple(0 if d in dims else next(it) for d in range(len(a.shape))))
    return Arr(eqn.outvars[0].aval.shape, get)


@rule('expand_dims')
def _expand(self, eqn, ins):
    dims = eqn.params['dimensions']
    return Arr(eqn.outvars[0].aval.shape, lambda ix: ins[0].get(tuple(v for d, v in enumerate(ix) if d not in dims)))


@rule('transpose')
def _transpose(self, eqn, ins):
    p = eqn.params['permutation']

    def get(ix):
        o = [None] * len(p)
        for k, d in enumerate(p):
            o[d] = ix[k]
        return ins[0].get(tuple(o))
    return Arr(eqn.outvars[0].aval.shape, get)


@rule('rev')
def _rev(self, eqn, ins):
    a, dims = ins[0], eqn.params['dimensions']
    return Arr(a.shape, lambda ix: a.get(tuple(Z.sub(a.shape[d] - 1, v) if d in dims else v for d, v in enumerate(ix))))


@rule('slice')
def _slice(self, eqn, ins):
    st = eqn.params['start_indices']
    sr = eqn.params['strides'] or (1,) * len(st)
    return Arr(eqn.outvars[0].aval.shape,
               lambda ix: ins[0].get(tuple(Z.add(Z.mul(v, r), s) for v, s, r in zip(ix, st, sr))))


@rule('dynamic_slice')
def _dslice(self, eqn, ins):
    a, starts = ins[0], ins[1:]
    sz = eqn.params['slice_sizes']

    def get(ix):
        st = [Z.zmin(Z.zmax(s.get(()), 0), n - k) for s, n, k in zip(starts, a.shape, sz)]
        return a.get(tuple(Z.add(v, s) for v, s in zip(ix, st)))
    return Arr(eqn.outvars[0].aval.shape, get)


@rule('concatenate')
def _concat(self, eqn, ins):
    d = eqn.params['dimension']

    def get(ix):
        off, parts = 0, []
        for a in ins:
            parts.append((off, a))
            off += a.shape[d]
        v = ix[d]
        if not Z.isz(v):
            for o, a in parts:
                if o <= v < o + a.shape[d]:
                    return a.get(ix[:d] + (v - o,) + ix[d + 1:])
        acc = None
        for o, a in reversed(parts):
            w = a.get(ix[:d] + (Z.sub(v, o),) + ix[d + 1:])
            acc = w if acc is None else Z.ite(Z.LT(v, o + a.shape[d]), w, acc)
        return acc
    return Arr(eqn.outvars[0].aval.shape, get)


@rule('iota')
def _iota(self, eqn, ins):
    d = eqn.params['dimension']
    return Arr(eqn.params['shape'], lambda ix: ix[d])


@rule('gather')
def _gather(self, eqn, ins):
    a, idx = ins
    dn = eqn.params['dimension_numbers']
    ss = eqn.params['slice_sizes']
    mode = str(eqn.params['mode'])
    if getattr(dn, 'operand_batching_dims', ()):
        raise SymError('batched gather')
    off = [d for d in range(len(a.shape)) if d not in dn.collapsed_slice_dims]

    def get(ix):
        b = tuple(v for d, v in enumerate(ix) if d not in dn.offset_dims)
        o = [ix[d] for d in dn.offset_dims]
        full = [0] * len(a.shape)
        for d, v in zip(off, o):
            full[d] = v
        oob = []
        for k, d in enumerate(dn.start_index_map):
            s = idx.get(b + (k,))
            hi = a.shape[d] - ss[d]
            if 'CLIP' in mode.upper() or 'clip' in mode:
                s = Z.zmin(Z.zmax(s, 0), hi)
            elif 'FILL' in mode.upper():
                oob.append(Z.OR(Z.LT(s, 0), Z.GT(s, hi)))
            full[d] = Z.add(full[d], s)
        v = a.get(tuple(full))
        for c in oob:
            if Z.isz(c):
                c = z3.simplify(c)
                c = False if z3.is_false(c) else c
            if c is not False:
                v = Z.ite(c, z3.Real('out_of_bounds') if not z3.is_int(Z.num(v)) else z3.Int('out_of_bounds_i'), v)
        return v
    return Arr(eqn.outvars[0].aval.shape, get)


# -------------------------------------------------------------- random draws
@rule('rng_split')
def _split(self, eqn, ins):
    k = ins[0]
    n = eqn.params['n']
    if len(k.shape) != 1:
        raise SymError('batched keys in the lazy executor')
    p = k.path
    r = Arr((n, 2), lambda ix: _fail('key data'))
    r.path = p
    r.children = [p + (('s', n, i),) for i in range(n)]
    return r


@rule('rng_perm')
def _perm(self, eqn, ins):
    n, k = eqn.params['n'], eqn.params['k']
    p = keypath(ins[0])
    self.nperm.append((p, n, k))
    return Arr((k,), lambda ix: self.apply_perm(p, n, ix[0]))


def keypath(a):
    p = getattr(a, 'path', None)
    if p is None:
        raise SymError('unresolved key')
    return p


@rule('rng_randint')
def _randint(self, eqn, ins):
    p = keypath(ins[0])
    shp = eqn.outvars[0].aval.shape
    f = z3.Function(f'randint{len(self.draws)}', *([z3.IntSort()] * (len(shp) + 1)))
    self.draws[p] = f

    def get(ix):
        v = f(*[Z.num(i) for i in ix])
        self.asm += [Z.num(Z.GE(v, ins[1].get(()))), Z.num(Z.LT(v, ins[2].get(())))]
        return v
    return Arr(shp, get)


def key(name='k'):
    a = Arr((2,), lambda ix: _fail('key data'))
    a.path = (name,)
    return a


# key arrays keep their identity through the shape plumbing of split
def _keyslice(orig):
    def f(self, eqn, ins):
        a = ins[0]
        out = orig(self, eqn, ins)
        if hasattr(a, 'children'):
            st = eqn.params.get('start_indices')
            if st is not None and out.shape[0] == 1:
                out.path = a.children[st[0]]
        elif hasattr(a, 'path'):
            out.path = a.path
        return out
    return f


for _n in ('slice', 'squeeze', 'reshape', 'broadcast_in_dim'):
    RULES[_n] = _keyslice(RULES[_n])
