"""Harness plumbing: set-up, tracing, region driver, law tables."""
import os
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('CUDA_VISIBLE_DEVICES', '')
import sys
sys.dont_write_bytecode = True
import time
import numpy as np
from fractions import Fraction
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
from . import rng
rng.install()
from . import expr as E
from . import smt
from .smt import Ctx, Split, STATS, Inconclusive
from .expr import P, SymError
from . import interp as I
from .interp import Interp, SArr, sarr, obj, conc_to_sarr, KeyE

F64 = np.dtype('float64')


def symarr(name, shape, pos=False, dtype='float64'):
    """array of fresh symbols."""
    vals = []
    for i in np.ndindex(*shape):
        vals.append(E.sym(name + ('_' + '_'.join(map(str, i)) if i else ''), pos))
    return obj(shape, vals, dtype)


def arr(vals, shape=None, dtype='float64'):
    """SArr from (nested) python values / P."""
    o = np.array(vals, dtype=object)
    if shape is not None:
        o = o.reshape(shape)
    f = np.empty(o.shape, object)
    ff, of = f.reshape(-1), o.reshape(-1)
    for i in range(of.size):
        v = of[i]
        ff[i] = v if isinstance(v, (P, KeyE, bool)) else (I.ideal(v) if isinstance(v, float) else v)
    return sarr(f, dtype)


def key(name='k'):
    return arr([KeyE((name,), 0), KeyE((name,), 1)], (2,), 'uint32')


def aval(a):
    return jax.ShapeDtypeStruct(a.a.shape, a.dtype)


def dce(closed):
    from jax.interpreters import partial_eval as pe
    j, used = pe.dce_jaxpr(closed.jaxpr, [True] * len(closed.jaxpr.outvars), instantiate=True)
    return jax.core.ClosedJaxpr(j, closed.consts)


class Traced:
    """A real function traced to a jaxpr with the environment stubs in force."""

    def __init__(self, fn, *args):
        self.args = args
        with rng.active():
            self.closed, self.tree = jax.make_jaxpr(fn, return_shape=True)(*[jax.tree_util.tree_map(
                aval, a, is_leaf=lambda z: isinstance(z, SArr)) for a in args])
        self.closed = dce(self.closed)
        self.flat = [x for a in args for x in jax.tree_util.tree_leaves(a, is_leaf=lambda z: isinstance(z, SArr))]
        self.treedef = jax.tree_util.tree_structure(self.tree)
        self.neqns = count_eqns(self.closed.jaxpr)

    def run(self, interp, flat=None):
        return [(w, jax.tree_util.tree_unflatten(self.treedef, outs))
                for w, outs in interp.run(self.closed, flat if flat is not None else self.flat)]


def count_eqns(j):
    n = 0
    for e in j.eqns:
        n += 1
        for v in e.params.values():
            for x in (v if isinstance(v, (tuple, list)) else [v]):
                if hasattr(x, 'jaxpr'):
                    n += count_eqns(x.jaxpr)
                elif hasattr(x, 'eqns'):
                    n += count_eqns(x)
    return n


def regions(assumptions, body, max_regions=4000, timeout_ms=4000, deadline=None, pc=()):
    """Explore all regions of the parameter space.  body(ctx) runs the symbolic execution under ctx and must be
    deterministic given ctx.pc.  Yields (ctx, result).  An undecided comparison splits the region."""
    todo = [list(pc)]
    n = 0
    shared = {}
    while todo:
        pc = todo.pop()
        if deadline and time.time() > deadline:
            raise SymError('time budget exceeded while exploring regions')
        ctx = Ctx(assumptions, pc, timeout_ms)
        with ctx:
            try:
                r = body(ctx)
            except Split as s:
                for c in (s.cond, smt.negc(s.cond)):
                    if ctx.check([c]) != 'unsat':
                        todo.append(pc + [c])
                continue
            n += 1
            STATS.regions += 1
            if n > max_regions:
                raise SymError(f'more than {max_regions} regions')
            yield ctx, r


def feasible(ctx):
    """reachability witness of a region: the assumptions together with the region condition are satisfiable."""
    STATS.vacuity += 1
    r, m = ctx.check([True], model=True, full=True)
    return r, m
