"""Identities and laws of the data utilities, the network wrappers and the optimiser kernels (registered in sde_ids)."""
import math
import jax
import jax.numpy as jnp
import numpy as np
from .sde_ids import ident, law, R, POS, r, p, expects


# ---------------------------------------------------------------- N05 standardisation and reshaping
def _ds():
    from fbs.data.base import Dataset
    return Dataset


for _n, _d in ((2, 1), (3, 2), (4, 1)):
    @ident('N05', f'standardise/{_n}x{_d}', x=r(_n, _d))
    def _std(env, x):
        z = _ds().standardise(x)
        n = x.shape[0]
        m = jnp.sum(x, 0) / n
        v = jnp.sum((x - m) ** 2, 0) / n
        return {'mean zero': (jnp.sum(z, 0), jnp.zeros(x.shape[1:])),
                'unit variance': (jnp.sum(z ** 2, 0), n * jnp.ones(x.shape[1:])),
                'affine in the data': (z * jnp.sqrt(v), x - m)}


@ident('N05', 'standardise/invariant to shift and positive scale', x=r(3, 1), c=r(), s=p())
def _std_inv(env, x, c, s):
    D = _ds()
    return {'same standardised data': (D.standardise(s * x + c), D.standardise(x))}


@ident('N05', 'standardise/image-shaped arrays', x=r(2, 2, 1, 1))
def _std_img(env, x):
    z = _ds().standardise(x)
    m = (x[0] + x[1]) / 2
    return {'mean zero per pixel': (z[0] + z[1], jnp.zeros(x.shape[1:])),
            'unit variance per pixel': (z[0] ** 2 + z[1] ** 2, 2 * jnp.ones(x.shape[1:]))}


@ident('N05', 'reshape', x0=r(), x1=r(3), x2=r(2, 3), x3=r(2, 2, 1))
def _resh(env, x0, x1, x2, x3):
    f = _ds().reshape
    return {'scalar': (f(x0), x0[None, None]), 'vector': (f(x1), x1[:, None]), 'matrix': (f(x2), x2), 'image': (f(x3), x3)}


@ident('N05', 'image data are left as they are', x=r(2, 2, 2, 1))
def _img_std(env, x):
    from fbs.data import images as im
    out = {}
    for n in ('Image', 'ImageRestore'):
        if hasattr(im, n):
            out[n] = (getattr(im, n).standardise(x), x)
    return out


# ---------------------------------------------------------------- N07 Crescent
XIS = (1., .25, 4.)


def _cr(psi, xi=1.):
    from fbs.data import Crescent
    return Crescent(3, psi, xi)


def _emis(phi, psi):
    return phi[..., 1] / psi + .5 * (phi[..., 0] ** 2 + psi ** 2)


for _xi in XIS:
    def _ref(env, psi, _xi=_xi):
        n = 2
        C = jnp.zeros((n * 3, n * 3))
        d = jnp.concatenate([jnp.tile(jnp.array([2., 1.]), n), _xi * jnp.ones(n)])
        return {'(x, y - emission(x))': (jnp.zeros(n * 3), jnp.diag(d))}

    @law('N07', f'sampler/xi={_xi}', _ref, psi=p())
    def _crs(env, key, psi, _xi=_xi):
        xs, ys = _cr(psi, _xi).sampler(key, 2)
        return {'(x, y - emission(x))': jnp.concatenate([xs.reshape(-1), (ys - _emis(xs, psi)).reshape(-1)])}

    @ident('N07', f'densities/xi={_xi}', psi=p(), phi=r(2), y=r())
    def _crd(env, psi, phi, y, _xi=_xi):
        c = _cr(psi, _xi)
        lp = -phi[0] ** 2 / 4 - phi[1] ** 2 / 2 - .5 * jnp.log(2.) - jnp.log(2 * jnp.pi)
        e = y - _emis(phi, psi)
        ll = -e ** 2 / (2 * _xi) - .5 * jnp.log(2 * jnp.pi) - .5 * math.log(_xi)
        c2 = _cr(psi, _xi)
        c2.cov_is_diag = False
        return {'log prior density': (c.log_prior_pdf(phi), lp),
                'log likelihood': (c.log_cond_pdf_likelihood(y, phi), ll),
                'emission': (c.emission(phi, psi), _emis(phi, psi)),
                'log prior density (dense covariance)': (c2.log_prior_pdf(phi), lp)}

    @ident('N07', f'score/xi={_xi}', psi=p(), xy=r(3))
    def _crsc(env, psi, xy, _xi=_xi):
        e = (xy[2] - _emis(xy[:2], psi)) / _xi
        return {'gradient of the joint log-density': (
            _cr(psi, _xi).score(xy), jnp.stack([-xy[0] / 2 + e * xy[0], -xy[1] + e / psi, -e]))}


@ident('N07', 'unpack', xy=r(2, 3))
def _cru(env, xy):
    x, y = _cr(1.).unpack(xy)
    return {'x': (x, xy[:, :2]), 'y': (y, xy[:, 2])}


def _mesh(g0, d0, g1, d1):
    a = jnp.concatenate([g0[None], g0 + jnp.cumsum(d0)])
    b = jnp.concatenate([g1[None], g1 + jnp.cumsum(d1)])
    return a, b, jnp.dstack(jnp.meshgrid(a, b))


def _trap(v, g):
    return jnp.sum((v[1:] + v[:-1]) / 2 * (g[1:] - g[:-1]))


for _n0, _n1 in ((2, 3), (3, 2)):
    @ident('N07', f'posterior/mesh {_n0}x{_n1}', psi=p(), y=r(), g0=r(), d0=p(_n0 - 1), g1=r(), d1=p(_n1 - 1))
    def _crp(env, psi, y, g0, d0, g1, d1):
        c = _cr(psi)
        a, b, mesh = _mesh(g0, d0, g1, d1)
        post = c.posterior(mesh, y)
        # energy[i, j] at (a[j], b[i])
        en = [[jnp.exp(-u ** 2 / 4 - v ** 2 / 2 - (y - v / psi - .5 * (u ** 2 + psi ** 2)) ** 2 / 2) for u in a] for v in b]
        z = _trap(jnp.stack([_trap(jnp.stack(row), a) for row in en]), b)
        return {'posterior density times its normalising integral': (post * z, jnp.array(en))}


# ---------------------------------------------------------------- N10 wrappers around networks
def _normal_init(key, shape, dtype=jnp.float64):
    return jax.random.normal(key, shape)


def _mlp():
    from flax import linen

    class Net(linen.Module):
        @linen.compact
        def __call__(self, x, t):
            h = linen.Dense(3, kernel_init=_normal_init, param_dtype=jnp.float64)(x)
            h = h * h + jnp.reshape(t, jnp.shape(t) + (1,) * (h.ndim - jnp.ndim(t)))
            return linen.Dense(x.shape[-1], kernel_init=_normal_init, param_dtype=jnp.float64)(h)
    return Net()


def _mlp_ref(x, t, par, d=2):
    """flattening order of the parameters: modules by name, bias before kernel"""
    b0, k0 = par[:3], par[3:3 + 3 * d].reshape(d, 3)
    q = 3 + 3 * d
    b1, k1 = par[q:q + d], par[q + d:q + d + 3 * d].reshape(3, d)
    h = x @ k0 + b0
    h = h * h + jnp.reshape(t, jnp.shape(t) + (1,) * (h.ndim - jnp.ndim(t)))
    return h @ k1 + b1


@ident('N10', 'make_st_nn/forward pass', k=('key', (2,)), par=r(17), x=r(2, 2), t=r(2), x1=r(2), t1=r())
def _stf(env, k, par, x, t, x1, t1):
    from fbs.nn import make_st_nn
    a, todict, f = make_st_nn(k, _mlp(), (2,), 2)
    return {'number of parameters': (jnp.array(a.size * 1.), jnp.array(17.)),
            'batch': (f(x, t, par), _mlp_ref(x, t, par)),
            'single input': (f(x1, t1, par), _mlp_ref(x1, t1, par)),
            'batch with one time': (f(x, t1, par), _mlp_ref(x, t1, par))}


@ident('N10', 'make_st_nn/parameter round trip', k=('key', (2,)), par=r(17))
def _strt(env, k, par):
    from jax.flatten_util import ravel_pytree
    from fbs.nn import make_st_nn
    a, todict, f = make_st_nn(k, _mlp(), (2,), 2)
    d0 = _mlp().init(k, jnp.ones((2, 2)), jnp.ones((2,)))
    return {'flattening inverts unflattening': (ravel_pytree(todict(par))[0], par),
            'initial parameters are those of the network': (a, ravel_pytree(d0)[0])}


def _mlp1():
    from flax import linen

    class Net(linen.Module):
        @linen.compact
        def __call__(self, x):
            h = linen.Dense(3, kernel_init=_normal_init, param_dtype=jnp.float64)(x)
            return linen.Dense(2, kernel_init=_normal_init, param_dtype=jnp.float64)(h * h)
    return Net()


@ident('N10', 'make_nn_with_time', k=('key', (2,)), par=r(20), x=r(2), t=r(), sc=p())
def _nwt(env, k, par, x, t, sc):
    from jax.flatten_util import ravel_pytree
    from fbs.nn.utils import make_nn_with_time
    a, todict, f = make_nn_with_time(_mlp1(), 2, 3, sc, k)
    b0, k0, b1, k1 = par[:3], par[3:12].reshape(3, 3), par[12:14], par[14:20].reshape(3, 2)
    h = jnp.stack([x[0], x[1], t * sc]) @ k0 + b0
    return {'forward pass': (f(x, t, par), (h * h) @ k1 + b1),
            'number of parameters': (jnp.array(a.size * 1.), jnp.array(20.)),
            'flattening inverts unflattening': (ravel_pytree(todict(par))[0], par)}


# ---------------------------------------------------------------- N11 optimisation step
def _loss(param, data, w=2.):
    return jnp.sum(data * param ** 3) + w * param[0] * param[1] + jnp.sum(data)


def _grad(param, data, w=2.):
    return 3 * data * param ** 2 + w * jnp.stack([param[1], param[0]])


for _jit in (True, False):
    @ident('N11', f'optax_kernel/sgd/jit={_jit}', par=r(2), d=r(2), lr=p())
    def _ok(env, par, d, lr, _jit=_jit):
        import optax
        from fbs.nn.utils import make_optax_kernel
        o = optax.sgd(lr)
        k, _ = make_optax_kernel(o, _loss, jit=_jit)
        q, s, l = k(par, o.init(par), d)
        q2, s, l2 = k(q, s, 2 * d)
        e = par - lr * _grad(par, d)
        return {'parameter after a step': (q, e), 'loss at the old parameter': (l, _loss(par, d)),
                'parameter after two steps': (q2, e - lr * _grad(e, 2 * d)), 'second loss': (l2, _loss(e, 2 * d))}

    @ident('N11', f'optax_kernel/keyword arguments/jit={_jit}', par=r(2), d=r(2), lr=p(), w=r())
    def _okw(env, par, d, lr, w, _jit=_jit):
        import optax
        from fbs.nn.utils import make_optax_kernel
        o = optax.sgd(lr)
        k, _ = make_optax_kernel(o, _loss, jit=_jit)
        q, s, l = k(par, o.init(par), d, w=w)
        return {'parameter after a step': (q, par - lr * _grad(par, d, w)), 'loss': (l, _loss(par, d, w))}

    @ident('N11', f'optax_kernel/momentum and weight decay/jit={_jit}', par=r(2), d=r(2))
    def _okm(env, par, d, _jit=_jit):
        import optax
        from fbs.nn.utils import make_optax_kernel
        o = optax.chain(optax.add_decayed_weights(.25), optax.sgd(.5, momentum=.5))
        k, _ = make_optax_kernel(o, _loss, jit=_jit)
        q, s, l = k(par, o.init(par), d)
        q2, s, l2 = k(q, s, d)
        g = _grad(par, d) + par / 4
        e = par - g / 2
        g2 = _grad(e, d) + e / 4 + g / 2
        return {'first step': (q, e), 'second step uses the optimiser state': (q2, e - g2 / 2)}
