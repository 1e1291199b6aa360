"""The image experiment scripts against the model they state: an arbitrary network in place of the trained one, images of
2x2 pixels, every pixel value symbolic."""
import math
import numpy as np
import jax
import jax.numpy as jnp
from .sde_ids import ident, law, r, p
from . import scripts
from .scripts import plain
from .exp_ids import NORM, K, STUBS, MIXES, fresh

UN = {'inpaint': [2], 'supr': [0, 2, 3]}          # pixels missing in the test image
OB = {'inpaint': [3, 0, 1], 'supr': [1]}          # deliberately not in increasing order
PARAMS = {'param': 3., 'ema_param': 5., 'param_fwd': 7., 'param_bwd': 11.}


def scatter(u, v, task, ch):
    """the image with the given missing and observed pixels"""
    img = jnp.zeros((*u.shape[:-2], 4, ch))
    img = img.at[..., np.array(UN[task]), :].set(u).at[..., np.array(OB[task]), :].set(v)
    return img.reshape(*u.shape[:-2], 2, 2, ch)


def parts(img, task):
    f = img.reshape(*img.shape[:-3], 4, img.shape[-1])
    return f[..., np.array(UN[task]), :], f[..., np.array(OB[task]), :]


def net(env, linear=False):
    """arbitrary functions of time and parameters as coefficients; every output pixel depends on a neighbour"""
    a, b, c = env.uf('na', 3), env.uf('nb', 3), env.uf('nc', 3)

    def nn(x, t, param):
        n = math.prod(x.shape[-3:])
        i = jnp.arange(n) * 1.
        z = x.reshape(*x.shape[:-3], n)
        o = a(i, t, param) + b(i, t, param) * jnp.roll(z, -1, axis=-1)
        if not linear:
            o = o + c(i, t, param) * z ** 2
        return o.reshape(x.shape)
    return nn


def st_data(real, a, out):
    from fbs.data.images import ImageRestore, InpaintingMask, SRMask
    ds = real.__new__(real)
    task, ch = out.task, out.ch
    ImageRestore.__init__(ds, a['task'], (2, 2, ch))
    un, ob = np.array(UN[task]), np.array(OB[task])
    mask = (InpaintingMask(1, 1, 0, un, ob) if task == 'inpaint' else SRMask(2, un, ob))
    ds.__dict__['sampler'] = lambda key: (out.datakeys.append(key), (out.img, parts(out.img, task)[1], mask))[1]
    return ds


def st_nn(real, a, out):
    return None, None, net(out.env, getattr(out, 'linear', False))


def st_twist(real, a, out):
    w = getattr(out, 'weighted', None)
    return w if w else (fresh(a, (a['nparticles'], 2, 2, out.ch)), jnp.full((a['nparticles'],), -jnp.log(a['nparticles'])))


def imgs(env, name, img, extra=(), n=2, m=2, nsteps=3, **attrs):
    stubs = {k: dict(v) for k, v in STUBS.items()}
    stubs['fbs.data'] = {'CelebAHQRestore': st_data, 'MNISTRestore': st_data}
    stubs['fbs.nn.models'] = {'make_st_nn': st_nn}
    stubs['fbs.nn.base'] = {'make_st_nn': st_nn}
    stubs['fbs.nn.unet'] = {'UNet': lambda real, a, out: None}
    for k in stubs:
        if 'twisted_smc' in stubs[k]:
            stubs[k]['twisted_smc'] = st_twist
    task = 'inpaint' if 'inpaint' in name else 'supr'
    argv = ['--test_nsteps', nsteps, '--nsamples', m, *extra]
    if name.startswith('imgs/'):
        argv = ['--ny0s', 1, '--dataset', 'celeba-2', *argv]
    argv += ['--rect_size', 1] if task == 'inpaint' else ['--rate', 2]
    if 'csgm' not in name:
        argv += ['--nparticles', n]

    loaded, datakeys = [], []

    def load(fn):
        loaded.append(fn)
        return {k: scripts.lift(v) for k, v in PARAMS.items()}
    ch = img.shape[-1]
    return scripts.run(f'experiments/{name}.py', argv, stubs, {'resolution': 2}, load, env=env, img=img, task=task, ch=ch,
                    du=(len(UN[task]), ch), loaded=loaded, datakeys=datakeys, **attrs)


def T_of(name):
    return scripts.lift(.5 if name.startswith('sb_imgs') else 2.)


def the_sde(R, name):
    return R.one('make_linear_sde')['sde'] if name.startswith('imgs/') else main(R).args['sde']


def model(R, name, env, ema=False, linear=False):
    """reverse drift and dispersion at reverse time t, for a whole image"""
    T, sde, nn = T_of(name), the_sde(R, name), net(env, linear)
    if name.startswith('sb_imgs'):
        return lambda z, t: (nn(z, T - t, scripts.lift(11.)), sde.dispersion(T - t))
    par = scripts.lift(5. if ema else 3.)
    return lambda z, t: (-sde.drift(z, T - t) + sde.dispersion(T - t) ** 2 * nn(z, T - t, par), sde.dispersion(T - t))


MAINS = ('gibbs_kernel', 'pmcmc_kernel', 'gibbs_init')


def main(R):
    for nm in MAINS:
        if R.all(nm):
            return R.all(nm)[-1]
    raise LookupError('the script calls none of the samplers')


def steps(R, name, env, u, v, t, nsteps, ema=False, linear=False):
    """Euler step of the reversal from every particle: means (image parts), standard deviation"""
    rev, task = model(R, name, env, ema, linear), R.task
    dt = T_of(name) / nsteps
    ms, mv, b = [], [], None
    for i in range(u.shape[0]):
        z = scatter(u[i], v, task, v.shape[-1])
        f, b = rev(z, t)
        q = parts(z + dt * f, task)
        ms.append(q[0])
        mv.append(q[1])
    return jnp.stack(ms), jnp.stack(mv), b * jnp.sqrt(dt)


def shapes(name, ch=3):
    t = 'inpaint' if 'inpaint' in name else 'supr'
    return (len(UN[t]), ch), (len(OB[t]), ch), (2, 2, ch)


def lpdf(x, m, s):
    return jnp.sum(NORM(x[None], m, s), axis=(1, 2))


def densities(name, flags, ch=3):
    du, dv, di = shapes(name, ch)

    @ident('X05', f'{name} {" ".join(flags)}: densities', k=K, u=r(2, *du), v=r(*dv), u1=r(*du), v1=r(*dv), tau=p(), img=r(*di))
    def f(env, k, u, v, u1, v1, tau, img):
        R = imgs(env, name, img, flags)
        T = T_of(name)
        t = T - tau
        ms, mv, s = steps(R, name, env, u, v, t, 3, '--test_ema' in flags)
        res = {}
        for nm in MAINS:
            for j, c in enumerate(R.all(nm)[:1]):
                a = c.args
                if 'transition_logpdf' in a:
                    res[f'{nm}: transition density'] = (a['transition_logpdf'](u1, u, v, t, **c.extra), lpdf(u1, ms, s))
                res[f'{nm}: likelihood'] = (a['likelihood_logpdf'](v1, u, v, t, **c.extra), lpdf(v1, mv, s))
                res[f'{nm}: time grid'] = (plain(a['ts']), T * jnp.arange(4) / 3)
                if 'unpack' in a:
                    x, y = a['unpack'](img[None], **c.extra)
                    res[f'{nm}: missing part'], res[f'{nm}: observed part'] = ((x[0], parts(img, R.task)[0]),
                                                                             (y[0], parts(img, R.task)[1]))
        if not res:
            main(R)
        return res


def fwd_law(sde, disc, x, K_, T):
    """mean and covariance of the forward noising of the flat vector x at the grid times"""
    n = x.shape[0]
    FQ = [disc(T * scripts.lift(float(i)) / K_, 0.) for i in range(K_ + 1)]
    mean = jnp.concatenate([F * x for F, _ in FQ])
    rows = [[FQ[max(i, j)][0] / FQ[min(i, j)][0] * FQ[min(i, j)][1] * jnp.eye(n) for j in range(K_ + 1)] for i in range(K_ + 1)]
    return mean, jnp.block(rows)


def laws(name, flags, ch=3):
    du, dv, di = shapes(name, ch)

    def ref(env, u, v, tau, img):
        R = imgs(env, name, img, flags, m=1)
        m, _, s = steps(R, name, env, u, v, T_of(name) - tau, 3, '--test_ema' in flags)
        o = {'one step': (m.ravel(), s ** 2 * jnp.eye(m.size))}
        if 'ref_sampler' in main(R).args:
            n = 2 * math.prod(du)
            o['reference'] = (jnp.zeros(n), jnp.eye(n))
        return o

    @law('X05', f'{name} {" ".join(flags)}: transition', ref, u=r(2, *du), v=r(*dv), tau=p(), img=r(*di))
    def f(env, k, u, v, tau, img):
        R = imgs(env, name, img, flags, m=1)
        c = main(R)
        k1, k2 = jax.random.split(k)
        o = {'one step': c.args['transition_sampler'](u, v, T_of(name) - tau, k1, **c.extra).ravel()}
        if 'ref_sampler' in c.args:
            o['reference'] = c.args['ref_sampler'](k2, v, 2).ravel()
        return o
    if name.startswith('sb_imgs'):
        return

    def pref(env, u, v, img):
        R = imgs(env, name, img, flags, m=1, nsteps=2)
        disc = R.one('make_linear_sde').ret[0]
        s, T = the_sde(R, name), T_of(name)
        return {q: fwd_law(s, disc, z, 2, T) for q, z in (('fwd_sampler', scatter(u, v, R.task, ch).ravel()),
                                                          ('fwd_ys_sampler', v.ravel())) if q in main(R).args}

    @law('X05', f'{name} {" ".join(flags)}: noising', pref, u=r(*du), v=r(*dv), img=r(*di))
    def g(env, k, u, v, img):
        R = imgs(env, name, img, flags, m=1, nsteps=2)
        c = main(R)
        o = {}
        if 'fwd_sampler' in c.args:
            o['fwd_sampler'] = c.args['fwd_sampler'](k, u, v, **c.extra).ravel()
        if 'fwd_ys_sampler' in c.args:
            o['fwd_ys_sampler'] = c.args['fwd_ys_sampler'](k, v).ravel()
        return o


LAST = lambda R: jnp.asarray(R.saved[-1][1][0])


def stored(R, img, o):
    t = [s for s in R.saved if 'test_img' in s[2]]
    if len(t) != 1:
        raise LookupError(f'{len(t)} files with the true image')
    o['stored true image'] = (t[0][2]['test_img'], img)


def chain(name, flags, kernel, ch=3, starts=('',)):
    du, dv, di = shapes(name, ch)

    @ident('X05', f'{name} {" ".join(flags)}: chain', k=K, img=r(*di))
    def f(env, k, img):
        R = imgs(env, name, img, flags)
        y0 = parts(img, R.task)[1]
        cs = R.all(kernel)
        if len(cs) != 2 * len(starts):
            raise LookupError(f'{len(cs)} kernel calls, expected {2 * len(starts)}')
        o = {}
        stored(R, img, o)
        arrays = [s[1][0] for s in R.saved if s[1] and jnp.ndim(s[1][0]) == 4 and 'test_img' not in s[2]]
        if len(arrays) != len(starts):
            raise LookupError(f'{len(arrays)} result files written, expected {len(starts)}')
        for q in range(len(starts)):
            for i in range(2):
                c = cs[2 * q + i]
                o[f'{starts[q]} stored image {i}'] = (arrays[q][i], scatter(c.result[0], y0, R.task, ch))
                o[f'{starts[q]} observation {i}'] = (c['y0'], y0)
            a, b = cs[2 * q], cs[2 * q + 1]
            if kernel == 'gibbs_kernel':
                z = R.all('gibbs_init')[q].result
                o[f'{starts[q]} initial state'] = (a['x0'], z[0])
                o[f'{starts[q]} initial trajectory'] = (a['us_star'], z[1])
                o[f'{starts[q]} initial observation'] = (R.all('gibbs_init')[q]['y0'], y0)
                o[f'{starts[q]} initial indices are valid'] = (jnp.prod(plain(a['bs_star'])[:, None] - jnp.arange(2)[None], axis=1), 0)
                for n_, w in enumerate(('x0', 'us_star', 'bs_star')):
                    o[f'{starts[q]} {w} continues'] = (b[w] * 1., a.result[n_] * 1.)
            if kernel == 'pmcmc_kernel':
                for n_, w in enumerate(('uT', 'log_ell', 'ys')):
                    o[f'{starts[q]} {w} continues'] = (b[w], a.result[n_])
                o['initial path starts at the observation'] = (a['ys'][0], y0)
        return o


def options(name, ch=3):
    du, dv, di = shapes(name, ch)

    @ident('X05', f'{name}: options', k=K, img=r(*di))
    def f(env, k, img):
        o = {}
        go = lambda *q: imgs(env, name, img, q, m=1, nsteps=2)
        for me, eb, ef in (('gibbs', 0, 0), ('gibbs-eb', 1, 0), ('gibbs-eb-ef', 1, 1)):
            for ma in ((), ('--marg',)):
                for ini in ('smoother', 'filter'):
                    R = go('--method', me, '--init_method', ini, *ma)
                    a, z = R.one('gibbs_kernel').args, R.one('gibbs_init').args
                    w = f'{me} {ini} {ma}'
                    o[f'{w} backward'] = (float(bool(a['explicit_backward'])), eb)
                    o[f'{w} final'] = (float(bool(a['explicit_final'])), ef)
                    o[f'{w} marginal'] = (jnp.asarray([float(bool(a['marg_y'])), float(bool(z['marg_y']))]), len(ma) * jnp.ones(2))
                    o[f'{w} particles'] = (jnp.asarray([a['nparticles'], z['nparticles']]) * 1., 2. * jnp.ones(2))
                    o[f'{w} method'] = (float(z['method'] == ini), 1.)
        for me, de in (('pmcmc', None), ('pmcmc-0.25', .25)):
            a = go('--method', me).one('pmcmc_kernel').args
            o[f'{me} delta'] = (-1. if a['delta'] is None else float(a['delta']), -1. if de is None else de)
            o[f'{me} particles'] = (a['nparticles'], 2)
        for ma in ((), ('--marg',)):
            z = go('--method', 'filter', *ma).one('gibbs_init').args
            o[f'filter {ma}'] = (jnp.asarray([float(z['method'] == 'filter'), float(bool(z['marg_y'])), z['nparticles']]),
                                 jnp.asarray([1., len(ma), 2.]))
        return o


for _n in ('imgs/inpainting', 'imgs/supr'):
    for _f in (('--method', 'gibbs', '--sde', 'lin'), ('--method', 'gibbs', '--sde', 'const', '--test_ema'),
               ('--method', 'pmcmc', '--sde', 'const'), ('--method', 'filter', '--sde', 'const')):
        densities(_n, _f)
        if _f[-1] != '--test_ema':
            laws(_n, _f)
    chain(_n, ('--method', 'gibbs'), 'gibbs_kernel')
    chain(_n, ('--method', 'filter'), 'gibbs_init')
    chain(_n, ('--method', 'pmcmc'), 'pmcmc_kernel')
    options(_n)


# ---------------------------------------------------------------- twisted diffusion sampler
def twisted(name, flags, ch=3):
    du, dv, di = shapes(name, ch)

    def dens(R, env, y, u, u1, t):
        rev, task = model(R, name, env, '--test_ema' in flags), R.task
        T = T_of(name)
        dt = T / 3
        F, Q = R.one('make_linear_sde').ret[0](T - t, 0.)
        fu, b = rev(u, t)
        tw = lambda z: jnp.sum(NORM(y, parts(z + dt * rev(z, t)[0], task)[1], jnp.sqrt(F ** 2 * scripts.lift(.06) + Q)))
        pm = u + dt * (fu + b ** 2 * jax.grad(tw)(u))
        sd = b * jnp.sqrt(dt)
        return jnp.sum(NORM(u1, u + dt * fu, sd)), tw(u), jnp.sum(NORM(u1, pm, sd)), pm, sd

    N_ = 1 if 'lin' in flags else 2

    @ident('X05', f'{name} {" ".join(flags)}: densities', k=K, u=r(N_, *di), u1=r(N_, *di), y=r(*dv), tau=p(), img=r(*di))
    def f(env, k, u, u1, y, tau, img):
        R = imgs(env, name, img, flags, m=1, n=N_)
        c, T = R.one('twisted_smc'), T_of(name)
        a, t = c.args, T - tau
        w = [dens(R, env, y, u[i], u1[i], t) for i in range(N_)]
        return {'transition density': (a['transition_logpdf'](u1, u, t), jnp.stack([x[0] for x in w])),
                'twisting density': (a['twisting_logpdf'](y, u, t, **c.extra), jnp.stack([x[1] for x in w])),
                'proposal density': (a['twisting_prop_logpdf'](u1, u, t, y, **c.extra), jnp.stack([x[2] for x in w])),
                'observation': (c['y'], parts(img, R.task)[1]),
                'time grid': (plain(a['ts']), T * jnp.arange(4) / 3)}

    def ref(env, u, y, tau, img):
        R = imgs(env, name, img, flags, m=1)
        w = [dens(R, env, y, u[i], u[i], T_of(name) - tau) for i in range(2)]
        n = 2 * math.prod(di)
        return {'proposal': (jnp.concatenate([x[3].ravel() for x in w]), w[0][4] ** 2 * jnp.eye(n)),
                'initial particles': (jnp.zeros(n), jnp.eye(n))}

    @law('X05', f'{name} {" ".join(flags)}: proposal', ref, u=r(2, *di), y=r(*dv), tau=p(), img=r(*di))
    def g(env, k, u, y, tau, img):
        R = imgs(env, name, img, flags, m=1)
        c = R.one('twisted_smc')
        return {'proposal': c.args['twisting_prop_sampler'](k, u, T_of(name) - tau, y, **c.extra).ravel(),
                'initial particles': c.args['init_sampler'](k, 2).ravel()}


for _n in ('imgs/inpainting_twisted', 'imgs/supr_twisted'):
    for _f in (('--sde', 'lin'), ('--sde', 'const', '--test_ema')):
        twisted(_n, _f)


def twisted_store(name, ch=3):
    """the stored image is a particle drawn with the returned weights: first two moments"""
    du, dv, di = shapes(name, ch)
    ws = lambda w: w / jnp.sum(w)

    def ref(env, u, w, img):
        q = ws(w)
        return {'image': jnp.tensordot(q, u, 1), 'square': jnp.tensordot(q, u ** 2, 1)}

    def f(env, k, u, w, img):
        R = imgs(env, name, img, (), m=1, nsteps=2, weighted=(u, jnp.log(ws(w))), key=k)
        x = LAST(R)[0]
        return {'image': x, 'square': x ** 2}
    MIXES.setdefault('X05', []).append((f'{name}: choice of the stored image', f, ref, dict(u=r(2, *di), w=p(2), img=r(*di))))

    @ident('X05', f'{name}: options and files', k=K, img=r(*di))
    def g(env, k, img):
        o = {}
        R = imgs(env, name, img, (), nsteps=2)
        cs = R.all('twisted_smc')
        stored(R, img, o)
        o['number of runs'] = (len(cs), 2)
        o['number of stored images'] = (LAST(R).shape[0], 2)
        for i, c in enumerate(cs):
            o[f'particles {i}'] = (c['nparticles'], 2)
            o[f'observation {i}'] = (c['y'], parts(img, R.task)[1])
        return o


for _n in ('imgs/inpainting_twisted', 'imgs/supr_twisted'):
    twisted_store(_n)


# ---------------------------------------------------------------- conditional score sampler
def csgm(name, flags, nsteps, ch=3):
    """law of the stored images, for a network affine in the image"""
    du, dv, di = shapes(name, ch)
    n = math.prod(di)

    def ref(env, img):
        R = imgs(env, name, img, flags, m=1, nsteps=nsteps, linear=True)
        task, T, sde = R.task, T_of(name), the_sde(R, name)
        disc = R.one('make_linear_sde').ret[0]
        nn, par = net(env, True), scripts.lift(5. if '--test_ema' in flags else 3.)
        y0 = parts(img, task)[1]
        px = np.arange(n).reshape(4, ch)
        iu, iy = px[UN[task]].ravel(), px[OB[task]].ravel()
        dt = T / nsteps
        m, C = jnp.zeros(len(iu)), jnp.eye(len(iu))
        for k in range(nsteps):
            t = T - T * k / nsteps
            F, Q = disc(t, 0.)
            b2 = sde.dispersion(t) ** 2
            c = nn(jnp.zeros(di), t, par).ravel()
            A = jnp.stack([nn(e.reshape(di), t, par).ravel() - c for e in jnp.eye(n)], axis=1)
            a = sde.drift(jnp.eye(len(iu)), t)
            J = jnp.eye(len(iu)) + dt * (b2 * A[iu][:, iu] - a)
            G = dt * b2 * A[iu][:, iy]
            m = J @ m + dt * b2 * c[iu] + G @ (F * y0.ravel())
            C = J @ C @ J.T + Q * G @ G.T + dt * b2 * jnp.eye(len(iu))
        mean = scatter(m.reshape(du), y0, task, ch).ravel()
        P_ = jnp.eye(n)[:, iu]
        return {'stored image': (mean, P_ @ C @ P_.T)}

    @law('X05', f'{name} {" ".join(flags)} {nsteps} steps: stored image', ref, img=r(*di))
    def f(env, k, img):
        R = imgs(env, name, img, flags, m=1, nsteps=nsteps, linear=True, key=k)
        return {'stored image': LAST(R)[0].ravel()}

    def ref2(env, img):
        m, C = ref(env, img)['stored image']
        return {'two images': (jnp.concatenate([m, m]), jax.scipy.linalg.block_diag(C, C))}
    if nsteps == 1:
        @law('X05', f'{name} {" ".join(flags)} {nsteps} steps: two stored images', ref2, img=r(*di))
        def g(env, k, img):
            R = imgs(env, name, img, flags, m=2, nsteps=nsteps, linear=True, key=k)
            return {'two images': LAST(R).ravel()}

        @ident('X05', f'{name}: files', k=K, img=r(*di))
        def h(env, k, img):
            o = {}
            stored(imgs(env, name, img, flags, m=1, nsteps=1), img, o)
            return o


for _n in ('imgs/inpainting_csgm', 'imgs/supr_csgm'):
    csgm(_n, ('--sde', 'const'), 1)
    csgm(_n, ('--sde', 'const', '--test_ema'), 3)
    csgm(_n, ('--sde', 'lin'), 2)


# ---------------------------------------------------------------- randomness of successive images, initialisations and kernel steps
def keys(name, flags, n, ch=3):
    du, dv, di = shapes(name, ch)
    flags = flags + (('--ny0s', '2') if name.startswith('imgs/') else ())

    @law('X05', f'{name} {" ".join(flags)}: keys', lambda env, img: {'draws': (jnp.zeros(n), jnp.eye(n))}, img=r(*di))
    def f(env, k, img):
        R = imgs(env, name, img, flags, m=2, nsteps=2, key=k)
        ks = R.datakeys + [c['key'] for nm in ('gibbs_init', 'gibbs_kernel', 'pmcmc_kernel', 'twisted_smc') for c in R.all(nm)]
        return {'draws': jnp.stack([jax.random.normal(q) for q in ks])}


for _n in ('imgs/inpainting', 'imgs/supr'):
    keys(_n, ('--method', 'gibbs'), 8)
    keys(_n, ('--method', 'filter'), 6)
    keys(_n, ('--method', 'pmcmc'), 6)
for _n in ('imgs/inpainting_twisted', 'imgs/supr_twisted'):
    keys(_n, (), 6)
keys('sb_imgs/supr', ('--method', 'gibbs', '--y0_id', '0'), 10, 1)
keys('sb_imgs/supr', ('--method', 'filter', '--y0_id', '0'), 7, 1)


# ---------------------------------------------------------------- the Schroedinger bridge on images
def sb_imgs(method, sde):
    name = 'sb_imgs/supr'
    flags = ('--method', method, '--sde', sde, '--y0_id', '0')
    du, dv, di = shapes(name, 1)
    densities(name, flags, 1)
    laws(name, flags, 1)

    @ident('X05', f'{name} {method} {sde}: forward process', k=K, u=r(*du), v=r(*dv), img=r(*di), tau=p())
    def f(env, k, u, v, img, tau):
        R = imgs(env, name, img, flags, m=1)
        c = main(R)
        n0 = len(R.all('euler_maruyama'))
        got = c.args['fwd_sampler'](k, u, v, **c.extra)
        e = R.one('euler_maruyama', n0)
        z, T = scatter(u, v, R.task, 1), T_of(name)
        return {'start': (e['x0'], z), 'path': (got, e.result), 'grid': (plain(e['ts']), T * jnp.arange(4) / 3),
                'drift': (e.args['drift'](img, tau), net(env)(img, tau, scripts.lift(7.))),
                'dispersion': (e.args['dispersion'](tau), the_sde(R, name).dispersion(tau)),
                'explicit marginals are not used': (float(bool(c.args['marg_y'])), 0.)}


sb_imgs('gibbs', 'lin')
sb_imgs('filter', 'const')
chain('sb_imgs/supr', ('--method', 'gibbs', '--y0_id', '0'), 'gibbs_kernel', 1, ('random', 'blank', 'interp'))


@ident('X05', 'sb_imgs/supr: initial missing parts', k=K, img=r(2, 2, 1))
def _sb_init(env, k, img):
    o = {}
    for method in ('gibbs', 'filter'):
        R = imgs(env, 'sb_imgs/supr', img, ('--method', method, '--y0_id', '0'), m=1)
        cs = R.all('gibbs_init')
        y0 = parts(img, R.task)[1]
        o[f'{method} blank'] = (cs[1]['x0'], jnp.zeros((3, 1)))
        o[f'{method} interpolated'] = (cs[2]['x0'], jnp.broadcast_to(y0, (3, 1)))
        o[f'{method} method'] = (float(all(c['method'] == ('filter' if method == 'filter' else 'smoother') for c in cs)), 1.)
    return o
