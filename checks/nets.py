"""N12: the network value of an image does not depend on the batch it is evaluated in. The real modules (initialised by
flax, so whatever parameters they have) are executed on z3 terms: parameters, images and times are real variables;
exponentials, roots, sines, tanh and sigmoids are uninterpreted functions."""
from functools import partial
import numpy as np
import jax
import jax.numpy as jnp
from symjax.expr import SymError
from symjax import zexec as Zx
from symjax.smt import z3, STATS
from .nn import STATS_check


def unet(mults, up, res, ch, dim=2, **kw):
    def make(dt=.01):
        from fbs.nn import unet as U
        blk = getattr(U, 'AttnBlock', None)
        small = None if blk is None else partial(blk, heads=1, dim_head=2)

        def apply(nn, p, x, t):
            old = getattr(U, 'AttnBlock', None)
            if small is not None:
                U.AttnBlock = small
            try:
                return nn.apply(p, x, t)
            finally:
                if small is not None:
                    U.AttnBlock = old
        nn = U.UNet(dt=dt, dim=dim, dim_mults=mults, upsampling=up, resnet_block_groups=1, **kw)
        if small is not None:
            U.AttnBlock = small
        try:
            ps = jax.eval_shape(lambda k, x, t: nn.init(k, x, t), jax.random.PRNGKey(0), jnp.zeros((2, res, res, ch)), jnp.zeros(2))
        finally:
            if small is not None:
                U.AttnBlock = blk
        return ps, partial(apply, nn), (res, res, ch)
    return make


def mlp(name, d, **attrs):
    def make(dt=.01):
        from fbs.nn import models as M
        cls = getattr(M, name)
        if attrs:
            cls = type(cls)(name, (cls,), attrs)
        nn = cls(dt=dt, dim=d)
        ps = jax.eval_shape(lambda k, x, t: nn.init(k, x, t), jax.random.PRNGKey(0), jnp.zeros((2, d)), jnp.zeros(2))
        return ps, nn.apply, (d,)
    return make


# name -> (maker, unbatched input allowed)
NETS = {
    'UNet one resolution, 2x2': (unet((1,), 'resize', 2, 1), True),
    'UNet two resolutions, resize, 2x2': (unet((1, 1), 'resize', 2, 1), True),
    'UNet two resolutions, pixel shuffle, 4x4': (unet((1, 2), 'pixel_shuffle', 4, 2), True),
    'CrescentMLP': (mlp('CrescentMLP', 3, hiddens=[3, 2]), True),
    'GMSBMLP': (mlp('GMSBMLP', 2), False),
}


def comparisons(single):
    """(name, evaluation, evaluation it must agree with), over f(x, t) and its version g with times in units of dt"""
    def one(f, x, t):
        return f(x, t) if single else f(x[None], t)[0]
    each = lambda f, xs, ts: jnp.stack([one(f, xs[i], ts[i]) for i in range(xs.shape[0])])
    yield 'batch of two', lambda f, g, xs, ts: f(xs, ts), lambda f, g, xs, ts: each(f, xs, ts)
    yield 'one time for the whole batch', lambda f, g, xs, ts: f(xs, ts[0]), lambda f, g, xs, ts: each(f, xs, [ts[0]] * 3)
    yield 'times in units of dt', lambda f, g, xs, ts: f(xs, ts / 128), lambda f, g, xs, ts: g(xs, ts)
    yield 'one time in units of dt', lambda f, g, xs, ts: f(xs, ts[0] / 128), lambda f, g, xs, ts: g(xs, ts[0])
    if single:
        yield 'mapped over the batch', lambda f, g, xs, ts: jax.vmap(f, in_axes=(0, None))(xs, ts[0]), \
            lambda f, g, xs, ts: each(f, xs, [ts[0]] * 3)
        yield 'mapped over images and times', lambda f, g, xs, ts: jax.vmap(f)(xs, ts), lambda f, g, xs, ts: each(f, xs, ts)


# ---------------------------------------------------------------- building blocks
H = W = 2


def wsconv(kern):
    def make(dt=None):
        from fbs.nn import unet as U
        nn = U.WeightStandardizedConv(features=2, kernel_size=(kern, kern), padding=kern // 2)
        return jax.eval_shape(nn.init, jax.random.PRNGKey(0), jnp.zeros((1, H, W, 2))), nn.apply, (1, H, W, 2)

    def got(p, apply, x):
        return apply(p, x)

    def want(p, apply, x):
        k, b = p['params']['kernel'], p['params']['bias']
        n = kern * kern * 2
        o = []
        for c in range(2):
            q = k[..., c]
            m = jnp.sum(q) / n
            sd = jnp.sqrt(jnp.sum((q - m) ** 2) / n + 1e-5)
            s = (q - m) / sd
            h = kern // 2
            y = jnp.zeros((H, W))
            for i in range(H):
                for j in range(W):
                    v = b[c]
                    for u in range(kern):
                        for w in range(kern):
                            if 0 <= i + u - h < H and 0 <= j + w - h < W:
                                v = v + jnp.sum(s[u, w] * x[0, i + u - h, j + w - h])
                    y = y.at[i, j].set(v)
            o.append(y)
        return jnp.stack(o, axis=-1)[None]
    return make, got, want


def attention(perm, **kw):
    perm = np.array(perm)

    def make(dt=None):
        from fbs.nn import unet as U
        nn = U.AttnBlock(dim_head=2, **kw)
        return jax.eval_shape(nn.init, jax.random.PRNGKey(0), jnp.zeros((1, H, W, 2))), nn.apply, (1, H, W, 2)

    def shuffle(x):
        return x.reshape(1, H * W, 2)[:, perm].reshape(1, H, W, 2)

    def got(p, apply, x):
        return apply(p, shuffle(x))

    def want(p, apply, x):
        return shuffle(apply(p, x))
    return make, got, want


BLOCKS = {
    'weight-standardised 1x1 convolution': wsconv(1),
    'weight-standardised 3x3 convolution': wsconv(3),
}
for _p in ((1, 0, 2, 3), (1, 2, 3, 0)):
    BLOCKS[f'linear attention of permuted pixels {_p}'] = attention(_p, heads=2, use_linear_attention=True)
    BLOCKS[f'attention of permuted pixels {_p}'] = attention(_p, heads=2, use_linear_attention=False)


def pair(name, which):
    """function of the inputs and parameters giving both sides, its inputs"""
    if name in BLOCKS:
        make, got, want = BLOCKS[name]
        ps, apply, shape = make()
        leaves, td = jax.tree_util.tree_flatten(ps)

        def h(x, *leaves):
            p = jax.tree_util.tree_unflatten(td, leaves)
            return got(p, apply, x), want(p, apply, x)
        return h, [shape] + [l.shape for l in leaves]
    make, single = NETS[name]
    ps, apply, shape = make()
    apply1 = make(.01 * 128)[1]
    leaves, td = jax.tree_util.tree_flatten(ps)
    _, got, want = list(comparisons(single))[which]

    def h(xs, ts, *leaves):
        p = jax.tree_util.tree_unflatten(td, leaves)
        f, g = (lambda x, t: apply(p, x, t)), (lambda x, t: apply1(p, x, t))
        return got(f, g, xs, ts), want(f, g, xs, ts)
    return h, [(2, *shape), (2,)] + [l.shape for l in leaves]


def bigger(terms, n):
    """have the terms more than n distinct subterms?"""
    seen, todo = set(), list(terms)
    while todo and len(seen) <= n:
        t = todo.pop()
        if t.get_id() not in seen:
            seen.add(t.get_id())
            todo += t.children()
    return len(seen) > n


def job(name, which, quick):
    site = name if name in BLOCKS else f'{name}: {list(comparisons(NETS[name][1]))[which][0]}'
    data = {'name': name, 'which': which}

    def run(cc):
        g, shapes = pair(name, which)
        cj = jax.make_jaxpr(g)(*[jnp.zeros(s) for s in shapes])
        (a, b) = cj.out_avals
        if a.shape != b.shape:
            return cc.candidate(site, f'shape {a.shape}, expected {b.shape}', 'net', data)
        z = Zx.ZExec()
        args = []
        for n, v in enumerate(cj.in_avals):
            o = np.empty(v.shape, object)
            for i in np.ndindex(*v.shape):
                o[i] = z.fresh('real', f'v{n}_{"_".join(map(str, i))}', 'real')
            args.append(o)
        Zx.AC[0] = True
        try:
            out, want = z.run(cj, args)
        finally:
            Zx.AC[0] = False
        cc.encoded(site, z.neqns)
        cc.regions += 1
        cc.vacuous += 1
        left = []
        for u, v in zip(out.reshape(-1), want.reshape(-1)):
            cc.vcs += 1
            if not Zx.same(u, v):       # otherwise one and the same (shared) solver term
                left.append(Zx.real(u) != Zx.real(v))
        STATS.queries += len(left) < out.size
        STATS.unsat += len(left) < out.size
        for d in left:
            if bigger([d, *z.asm], 4000):        # hopeless for the solver and its time limit; the replay decides
                return cc.candidate(site, 'wrong value' if name in BLOCKS else 'the two evaluations differ', 'net', data)
            s = z3.Solver()
            s.set('timeout', 20000 if quick else 120000)
            for q in z.asm:
                s.add(q)
            s.add(d)
            if STATS_check(s) != 'unsat':
                return cc.candidate(site, 'wrong value' if name in BLOCKS else 'the two evaluations differ', 'net', data)
        cc.sample(f'{site}: {out.size} values, {sum(int(np.prod(s)) for s in shapes)} symbolic inputs and parameters')
    return site, run, 'net', data


def n12(c):
    c.bound('UNet of width 2 with one or two resolutions, one attention head of width 2, one normalisation group, images of 2x2 and '
            '4x4 pixels; CrescentMLP with two hidden layers; GMSBMLP; batches of two; blocks with two channels on 2x2 pixels')
    c.assume('exact real arithmetic; exp, sqrt, sin, cos, tanh, erf and the sigmoid are uninterpreted functions')
    c.jobs([job(n, w, c.quick) for n, (m, s) in NETS.items() for w in range(6 if s else 4)] + [job(n, 0, c.quick) for n in BLOCKS],
           procs=6, timeout=420 if c.quick else 840)
    return c.finish(explanation='batch evaluation of the real network modules equals the evaluation image by image, for all '
                                'parameters, images and times; blocks against their definitions')
