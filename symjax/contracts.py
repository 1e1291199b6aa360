"""Contracts for matrix functions without a symbolic algorithm.

eigh: any orthogonal eigendecomposition; known for diagonal matrices and for the matrices the caller has introduced
through eig_hint (whose decomposition is part of the parametrisation).
expm: the matrix exponential; known in closed form for triangular matrices with one or two rows and diagonal ones, and
for the matrices introduced through expm_hint."""
import numpy as np
import jax
import jax.numpy as jnp
from jax import core
from jax.interpreters import ad, batching
from . import expr as E
from . import rng
from .expr import P, SymError
from .interp import DET, sarr
from . import interp as I

EIGS = []
EXPMS = []
MISS = []      # lookups without an answer


def zero(d):
    if not isinstance(d, P):
        return abs(d) < 1e-12
    d = E.clear_den(E.simp(d))
    if isinstance(d, P):
        d = E.merge_exps(d)
    return not isinstance(d, P) and d == 0


def same(A, B):
    return A.shape == B.shape and all(zero(E.sub(x, y)) for x, y in zip(A.ravel(), B.ravel()))


def isz(x):
    return not isinstance(x, P) and x == 0 or isinstance(x, P) and zero(x)


def d_eig_hint(eqn, ins):
    EIGS.append((ins[0].a, ins[1].a, ins[2].a))
    return ins[0]


def d_expm_hint(eqn, ins):
    EXPMS.append((ins[0].a, ins[1].a))
    return ins[0]


def d_eigh(eqn, ins):
    A = ins[0].a
    if A.ndim != 2:
        raise SymError('batched eigh')
    n = A.shape[0]
    sym = np.empty((n, n), object)
    for i in range(n):
        for j in range(n):
            sym[i, j] = A[max(i, j), min(i, j)] if eqn.params.get('lower', True) else A[min(i, j), max(i, j)]
    if all(isz(sym[i, j]) for i in range(n) for j in range(n) if i != j):
        w = np.array([E.simp(sym[i, i]) for i in range(n)], object)
        V = np.zeros((n, n), object)
        for i in range(n):
            V[i, i] = 1
    else:
        for M, w, V in EIGS:
            if same(M, sym):
                break
        else:
            MISS.append('eigh')
            raise SymError('eigendecomposition of a matrix outside the parametrised family')
    w, V = sarr(np.array(w, object), ins[0].dtype), sarr(np.array(V, object), ins[0].dtype)
    vals = {(n, n): V, (n,): w}
    return [vals[tuple(o.aval.shape)] for o in eqn.outvars] if n > 1 or len({o.aval.shape for o in eqn.outvars}) > 1 \
        else [V, w]


def d_expm(eqn, ins):
    A = ins[0].a
    n = A.shape[0]
    out = np.zeros((n, n), object)
    off = [(i, j) for i in range(n) for j in range(n) if i != j and not isz(A[i, j])]
    if not off:
        for i in range(n):
            out[i, i] = E.exp(A[i, i])
        return sarr(out, ins[0].dtype)
    for M, X in EXPMS:
        if same(M, A):
            return sarr(X, ins[0].dtype)
    if n == 2 and len(off) == 1:
        (i, j), = off
        a, c = A[0, 0], A[1, 1]
        ea, ec = E.exp(a), E.exp(c)
        out[0, 0], out[1, 1] = ea, ec
        d = E.sub(a, c)
        out[i, j] = E.mul(A[i, j], ea) if isz(d) else E.mul(A[i, j], E.div(E.sub(ea, ec), d))
        return sarr(out, ins[0].dtype)
    MISS.append('expm')
    raise SymError('matrix exponential of a matrix outside the parametrised family')


def d_chosolve(eqn, ins):
    """A x = b from the Cholesky factor of A, solved by Cramer's rule on A = L L^T; leading axes are batch axes."""
    L, b = ins[0].a, ins[1].a
    low, rank = eqn.params['lower'], eqn.params['rank']
    out = np.empty(b.shape, object)
    memo = {}
    for ix in np.ndindex(*b.shape[:b.ndim - rank]):
        l = L[ix] if L.ndim > 2 else L
        h = tuple(id(x) for x in l.ravel())
        if h not in memo:
            n = l.shape[0]
            M = np.empty((n, n), object)
            for i in range(n):
                for j in range(n):
                    s = 0
                    for k in range(min(i, j) + 1):
                        x, y = (l[i, k], l[j, k]) if low else (l[k, i], l[k, j])
                        s = E.add(s, E.mul(x, y))
                    M[i, j] = E.canon(s)
            memo[h] = M
        if rank == 1:
            out[ix] = I.linsolve(memo[h], b[ix])
        else:
            for c in range(b.shape[-1]):
                out[(*ix, slice(None), c)] = I.linsolve(memo[h], b[(*ix, slice(None), c)])
    return sarr(out, ins[1].dtype)


DET['eigh'] = d_eigh
DET['cho_solve'] = d_chosolve
DET['eig_hint'] = d_eig_hint
DET['expm_hint'] = d_expm_hint
DET['mat_expm'] = d_expm

_eh = core.Primitive('eig_hint')
_eh.def_abstract_eval(lambda m, w, v: core.ShapedArray(m.shape, m.dtype))
_xh = core.Primitive('expm_hint')
_xh.def_abstract_eval(lambda m, x: core.ShapedArray(m.shape, m.dtype))
_ex = core.Primitive('mat_expm')
_ex.def_abstract_eval(lambda m: core.ShapedArray(m.shape, m.dtype))


_cs = core.Primitive('cho_solve')
_cs.def_abstract_eval(lambda L, b, **k: core.ShapedArray(b.shape, b.dtype))


def _cs_batch(args, dims, lower, rank):
    from jax.interpreters.batching import not_mapped
    size = next(a.shape[d] for a, d in zip(args, dims) if d is not not_mapped)
    L, b = [jnp.broadcast_to(a, (size,) + a.shape) if d is not_mapped else jnp.moveaxis(a, d, 0)
            for a, d in zip(args, dims)]
    while L.ndim - 2 < b.ndim - rank:
        L = jnp.broadcast_to(L[:, None], (L.shape[0], b.shape[L.ndim - 2], *L.shape[1:]))
    return _cs.bind(L, b, lower=lower, rank=rank), 0


def _cs_jvp(primals, tangents, **kw):
    L, b = primals
    tL, tb = tangents
    if not isinstance(tL, ad.Zero):
        raise NotImplementedError('derivative of cho_solve with respect to the factor')
    o = _cs.bind(L, b, **kw)
    return o, (ad.Zero(core.get_aval(o).at_least_vspace()) if isinstance(tb, ad.Zero) else _cs.bind(L, tb, **kw))


def _cs_T(ct, L, b, **kw):
    return [None, ad.Zero(b.aval) if isinstance(ct, ad.Zero) else _cs.bind(L, ct, **kw)]


batching.primitive_batchers[_cs] = _cs_batch
ad.primitive_jvps[_cs] = _cs_jvp
ad.primitive_transposes[_cs] = _cs_T


def cho_solve(c_and_lower, b, **kw):
    c, lower = c_and_lower
    b = jnp.asarray(b, float)
    return _cs.bind(jnp.asarray(c, float), b, lower=bool(lower), rank=b.ndim)


def eig_hint(M, w, V):
    return _eh.bind(*[jnp.asarray(x, float) for x in (M, w, V)])


def expm_hint(M, X):
    return _xh.bind(*[jnp.asarray(x, float) for x in (M, X)])


def install():
    import jax.scipy.linalg as jl
    jl.expm = rng._switch(lambda A, **k: _ex.bind(jnp.asarray(A, float)), jl.expm)
    jl.cho_solve = rng._switch(cho_solve, jl.cho_solve)


install()
