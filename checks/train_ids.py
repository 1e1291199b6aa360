"""The training scripts: what they hand to the losses, optimisers and checkpoints. The dataset, network, optimiser and loss
are opaque (fresh symbols per call), so the statements hold for whatever those return; the chain of parameters is followed
call by call."""
import inspect
import math
import numpy as np
import jax
import jax.numpy as jnp
from .sde_ids import ident, law, expects, r, p
from . import scripts
from .scripts import plain
from .exp_ids import K, MIXES
from .img_ids import net, scatter

N_DATA, BATCH, NB = 5, 2, 2           # NB complete batches per epoch


def st_data(real, a, out):
    from fbs.data.images import ImageRestore
    ds = real.__new__(real)
    ImageRestore.__init__(ds, a['task'], (2, 2, 3))
    ds.__dict__['n'] = N_DATA
    out.perms, out.batches, out.perm_keys = 0, [], []

    def init(key, batch_size):
        out.perm_keys.append(key)
        out.perms += 1
        ds.__dict__['perm_inds'] = ('perm', out.perms)
        return ds.perm_inds

    def batch(i, perm_inds=None, key=None):
        q = (perm_inds if perm_inds is not None else ds.perm_inds)[1], int(i)
        out.batches.append(q)
        return val(out, 'batch', *q) + jnp.zeros((BATCH, 2, 2, 3))
    ds.__dict__.update(init_enumeration=init, enumerate_subset=batch,
                       sampler=lambda key: (jnp.zeros((2, 2, 3)), None, None))
    return ds


def val(out, name, *i):
    """an arbitrary number for every name and index"""
    return out.env.uf(name, max(1, len(i)))(*[jnp.float64(x) * 1. for x in i or (0,)])


def st_nn(real, a, out):
    out.nets = getattr(out, 'nets', 0) + 1
    return val(out, 'theta0', out.nets), None, net(out.env)


class Opt:
    """an optimiser with an arbitrary update rule"""
    def __init__(self, out, kw):
        self.out, self.kw, self.log = out, kw, []
        self.states = 0

    def init(self, params):
        self.states += 1
        return val(self.out, 'opt0', self.states)

    def update(self, updates, state, params=None):
        i = len(self.log)
        self.log.append((updates, state, params))
        return val(self.out, 'update', i), val(self.out, 'state', i)


def st_adam(real, a, out):
    o = Opt(out, a)
    out.adams = getattr(out, 'adams', []) + [o]
    return o


def st_chain(real, a, out):
    parts = list(a['args'])
    out.chains = getattr(out, 'chains', []) + [parts]
    o = parts[-1]
    o.clipped = [q for q in parts[:-1]]
    return o


def st_clip(real, a, out):
    return ('clip', a['max_norm'])


def st_kernel(real, a, out):
    out.steps, out.emas = [], []

    sig = inspect.signature(real(None, lambda: None)[1])       # of the averaging step

    def kernel(param, opt_state, *args, **kw):
        i = len(out.steps)
        args = list(args)
        key = kw.pop('key') if 'key' in kw else args.pop(0)
        out.steps.append((param, opt_state, key, (*args, *kw.values())))
        return val(out, 'theta', i), val(out, 'state', i), jnp.float64(0.)

    def ema(*a, **kw):
        b = sig.bind(*a, **kw)
        b.apply_defaults()
        ema_param, param, count, *hyper = b.args
        i = len(out.emas)
        out.emas.append((ema_param, param, count, hyper, len(out.steps)))
        return val(out, 'ema', i)
    return kernel, ema


def st_simulate(real, a, out):
    return jnp.zeros((a['ts'].shape[0], *a['u0'].shape))


def common_stubs():
    return {'fbs.data': {'CelebAHQRestore': st_data, 'MNISTRestore': st_data},
            'fbs.nn.models': {'make_st_nn': st_nn}, 'fbs.nn.base': {'make_st_nn': st_nn},
            'fbs.nn.unet': {'UNet': lambda real, a, out: None},
            'optax': {'adam': st_adam, 'chain': st_chain, 'clip_by_global_norm': st_clip}}


def train(env, flags=(), nepochs=2, **attrs):
    stubs = common_stubs()
    stubs['fbs.nn.utils'] = {'make_optax_kernel': st_kernel}
    stubs['fbs.sdes'] = {'make_linear_sde_law_loss': lambda real, a, out: 'loss', 'make_linear_sde': None,
                         'reverse_simulator': lambda real, a, out: jnp.zeros((2, 2, 3))}
    return scripts.run('experiments/imgs/train.py', ['--dataset', 'celeba-2', '--batch_size', BATCH, '--nepochs', nepochs, *flags],
                       stubs, {'nsteps': 2}, exact=False, env=env, **attrs)


def eqs(o, label, pairs):
    """pairs of equal lists; a length mismatch is a difference"""
    got, want = pairs
    o[label] = (jnp.stack([jnp.asarray(x, float) for x in got]) if got else jnp.zeros(0),
                jnp.stack([jnp.asarray(x, float) for x in want]) if want else jnp.zeros(0))


# ---------------------------------------------------------------- the forward noising model
def threading(flags, nepochs):
    tag = ' '.join(flags)

    @ident('X07', f'imgs/train {tag}: {nepochs} epochs', k=K)
    def f(env, k):
        R = train(env, flags, nepochs)
        n = nepochs * NB
        o = {'number of updates': (float(len(R.steps)), float(n))}
        if len(R.steps) != n or len(R.emas) != n:
            o['number of averages'] = (float(len(R.emas)), float(n))
            return o
        th = [val(R, 'theta', i) for i in range(n)]
        eqs(o, 'parameters go from update to update', ([s[0] for s in R.steps], [val(R, 'theta0', 1)] + th[:-1]))
        eqs(o, 'optimiser state goes from update to update',
            ([s[1] for s in R.steps], [val(R, 'opt0', 1)] + [val(R, 'state', i) for i in range(n - 1)]))
        eqs(o, 'average goes from update to update',
            ([s[0] for s in R.emas], [val(R, 'theta0', 1)] + [val(R, 'ema', i) for i in range(n - 1)]))
        eqs(o, 'average of the updated parameters', ([s[1] for s in R.emas], th))
        cnt = [float(s[2]) for s in R.emas]
        o['averaging count grows by one per update of an epoch'] = (
            float(all(b - a == 1. for i, (a, b) in enumerate(zip(cnt, cnt[1:])) if (i + 1) % NB)), 1.)
        o['one averaging rule'] = (float(len({tuple(map(float, s[3])) for s in R.emas}) == 1), 1.)
        b = [float(jnp.ndim(s[3][0])) for s in R.steps]
        want = [val(R, 'batch', e + 1, j) for e in range(nepochs) for j in range(NB)]
        got = [s[3][0][0, 0, 0, 0] for s in R.steps]
        for e in range(nepochs):            # every batch of the epoch's own permutation once
            q = sorted(R.batches[e * NB:(e + 1) * NB])
            o[f'epoch {e}: every batch once'] = (float(q == [(e + 1, j) for j in range(NB)]), 1.)
        eqs(o, 'data of the update', (got, [val(R, 'batch', *q) for q in R.batches[:n]]))
        sv = [s for s in R.saved]
        o['checkpoints'] = (float([s[0] for s in sv] ==
                                  [f'./checkpoints/celeba-2_{args(flags)["sde"]}_{e}.npz' for e in range(nepochs) if (e + 1) % 100 == 0]), 1.)
        for s in sv:
            e = int(s[0].split('_')[-1].split('.')[0])
            i = (e + 1) * NB - 1
            o[f'checkpoint {e}: param'] = (s[2]['param'], val(R, 'theta', i))
            o[f'checkpoint {e}: ema_param'] = (s[2]['ema_param'], val(R, 'ema', i))
        return o


def args(flags):
    a = {'sde': 'lin', 'loss_type': 'score', 'lr': '2e-4', 'nsteps': '2', 'schedule': 'cos', 'upsampling': 'pixel_shuffle'}
    for i, f in enumerate(flags):
        if f[2:] in a:
            a[f[2:]] = flags[i + 1]
    return a


threading((), 2)
threading(('--sde', 'const'), 100)


def options(flags):
    @ident('X07', f'imgs/train {" ".join(flags)}: objective', k=K, x=r(2, 2, 3), t=p(), theta=r())
    def f(env, k, x, t, theta):
        from fbs.sdes import StationaryConstLinearSDE, StationaryLinLinearSDE, StationaryExpLinearSDE
        R = train(env, flags, 2)
        a = args(flags)
        c = R.one('make_linear_sde_law_loss')
        sde = {'const': lambda: StationaryConstLinearSDE(a=-0.5, b=1.),
               'lin': lambda: StationaryLinLinearSDE(beta_min=0.02, beta_max=5., t0=0., T=2),
               'exp': lambda: StationaryExpLinearSDE(a=-0.5, b=1., c=1., z=1.)}[a['sde']]()
        nn = net(env)
        o = {'score network': (c.args['nn_fn'](x, t, theta), nn(x, t, theta)),
             'drift': (c.args['sde'].drift(x, t), sde.drift(x, t)),
             'dispersion': (c.args['sde'].dispersion(t), sde.dispersion(t)),
             'times': (jnp.stack([jnp.asarray(c[q], float) for q in ('t0', 'T', 'nsteps')]), jnp.array([0., 2., float(a['nsteps'])])),
             'loss options': (float((c.args['loss_type'], bool(c.args['save_mem']), bool(c.args['random_times'])) ==
                                    (a['loss_type'], '--save_mem' in flags, True)), 1.)}
        m = R.one('make_optax_kernel')
        o['optimised objective'] = (float(m.args['loss_fn'] == 'loss'), 1.)
        optimiser(o, m.args['optimiser'], flags, 2)
        u = R.one('UNet').args
        o['network'] = (float(u['upsampling'] == a['upsampling']), 1.)
        v = R.one('reverse_simulator')
        o['test score'] = (v.args['score'](x, t), nn(x, t, val(R, 'ema', 2 * NB - 1)))
        o['test drift'] = (v.args['drift'](x, t), sde.drift(x, t))
        o['test dispersion'] = (v.args['dispersion'](t), sde.dispersion(t))
        o['test times'] = (plain(v['ts']), 2. * jnp.arange(3) / 2)
        return o


def optimiser(o, opt, flags, nepochs):
    a = args(flags)
    lr = opt.kw['learning_rate']

    def at(n):
        with jax.ensure_compile_time_eval():
            return float(lr(n) if callable(lr) else lr)
    end = 4 * NB * nepochs
    o['learning rate at the first update'] = (at(0), float(a['lr']))
    if a['schedule'] == 'const':
        o['learning rate is constant'] = (at(end), float(a['lr']))
    else:
        o['learning rate decays'] = (float(0. < at(end) < at(0)), 1.)
    o['gradient clipping'] = (float(getattr(opt, 'clipped', []) == ([('clip', 1.)] if '--grad_clip' in flags else [])), 1.)


options(('--sde', 'lin', '--loss_type', 'score', '--schedule', 'cos'))
options(('--sde', 'const', '--loss_type', 'eps', '--schedule', 'const', '--grad_clip', '--lr', '0.125', '--nsteps', '3'))
options(('--sde', 'exp', '--schedule', 'exp', '--save_mem', '--upsampling', 'resize'))


def train_keys(what, n):
    @law('X07', f'imgs/train: {what} keys', lambda env: {'draws': (jnp.zeros(n), jnp.eye(n))})
    def f(env, k):
        R = train(env, (), 2, key=k)
        ks = {'update': lambda: [s[2] for s in R.steps], 'permutation': lambda: R.perm_keys}[what]()
        return {'draws': jnp.stack([jax.random.normal(q) for q in ks])}


train_keys('update', 2 * NB)
train_keys('permutation', 2)


# ---------------------------------------------------------------- the Schroedinger bridge
def st_ipf(real, a, out):
    i = len(out.losses)
    out.losses.append(dict(a))
    return val(out, 'loss', i)


def sb_train(env, flags=(), nsbs=2, nepochs=2, nsteps=2, **attrs):
    stubs = common_stubs()
    stubs['fbs.dsb.base'] = {'ipf_loss_cont': st_ipf, 'ipf_loss_cont_v': st_ipf}
    stubs['fbs.sdes'] = {'euler_maruyama': lambda real, a, out: jnp.zeros(a['x0'].shape)}
    stubs['fbs.sdes.simulators'] = dict(stubs['fbs.sdes'])
    grads = []

    def vag(f, argnums=0, **kw):
        def g(*a, **kw):
            loss = f(*a, **kw)
            grads.append(inspect.signature(f).bind(*a, **kw).args[argnums])
            return loss, env.uf('grad', 1)(jnp.float64(len(grads) - 1))
        return g
    R = scripts.run('experiments/sb_imgs/train.py',
                    ['--dataset', 'celeba-2', '--batch_size', BATCH, '--nepochs', nepochs, '--nsbs', nsbs, '--nsteps', nsteps, *(['--schedule', 'const'] if nepochs == 1 else []), *flags],
                    stubs, {'nsteps': 2}, exact=False,
                    jaxover={'value_and_grad': vag, 'grad': lambda f, **kw: lambda *a, **k: vag(f, **kw)(*a, **k)[1]},
                    env=env, losses=[], **attrs)
    R.grads = grads
    return R


def sb_threading(flags, nsbs, nepochs):
    @ident('X07', f'sb_imgs/train {" ".join(flags)}: {nsbs} iterations, {nepochs} epochs', k=K, x=r(2, 2, 3), t=p(), theta=r())
    def f(env, k, x, t, theta):
        R = sb_train(env, flags, nsbs, nepochs)
        a = args(flags)
        m = NB * nepochs
        n = 2 * m * nsbs
        log = R.adams[-1].log
        o = {'number of updates': (jnp.array([len(R.losses), len(log), len(R.grads)], float), jnp.full(3, float(n)))}
        if not len(R.losses) == len(log) == len(R.grads) == n:
            return o
        from fbs.sdes import StationaryConstLinearSDE, StationaryLinLinearSDE
        T = .5
        sde = StationaryConstLinearSDE(a=-0.5, b=1.) if a['sde'] == 'const' else \
            StationaryLinLinearSDE(beta_min=0.02, beta_max=5., t0=0., T=T)
        nn = net(env)
        cur = [val(R, 'theta0', 1), val(R, 'theta0', 2)]       # forward, backward
        st = [val(R, 'opt0', 1), val(R, 'opt0', 2)]
        lists = {q: ([], []) for q in ('learnt parameters', 'parameters of the simulator', 'differentiated parameters',
                                       'gradient of the loss', 'optimiser state', 'updated parameters', 'drift learnt',
                                       'drift simulated', 'dispersion', 'first time', 'last time')}
        order, batches, sv = [], iter(R.batches), list(R.saved)
        for it in range(nsbs):
            for half in (1, 0):
                for j in range(m):
                    i = len(order)
                    c, (g, s, q) = R.losses[i], log[i]
                    order.append(half)
                    for name, got, want in (
                            ('learnt parameters', c['param'], cur[half]),
                            ('parameters of the simulator', c['simulator_param'], cur[1 - half]),
                            ('differentiated parameters', R.grads[i], cur[half]),
                            ('gradient of the loss', g, env.uf('grad', 1)(jnp.float64(i))),
                            ('optimiser state', s, st[half]),
                            ('drift learnt', c['parametric_drift'](x, t, theta), nn(x, t, theta)),
                            ('drift simulated', c['simulator_drift'](x, t, theta),
                             sde.drift(x, t) if half and it == 0 else nn(x, t, theta)),
                            ('dispersion', c['dispersion'](t), sde.dispersion(t)),
                            ('first time', plain(c['ts'])[0], 0. if half else T),
                            ('last time', plain(c['ts'])[-1], T if half else 0.)):
                        lists[name][0].append(got)
                        lists[name][1].append(want)
                    cur[half] = cur[half] + val(R, 'update', i)
                    st[half] = val(R, 'state', i)
                    if half:
                        lists.setdefault('data', ([], []))
                        lists['data'][0].append(plain(c['init_samples'])[0, 0, 0, 0])
                        lists['data'][1].append(val(R, 'batch', *next(batches)))
            fn, _, kw = sv.pop(0) if sv else ('', (), {'param_fwd': 0., 'param_bwd': 0.})
            o[f'checkpoint {it}: name'] = (float(fn == f'./checkpoints/sb_celeba-2_{a["sde"]}_{it}.npz'), 1.)
            o[f'checkpoint {it}: param_fwd'] = (kw['param_fwd'], cur[0])
            o[f'checkpoint {it}: param_bwd'] = (kw['param_bwd'], cur[1])
        del lists['updated parameters']
        for name, q in lists.items():
            eqs(o, name, q)
        epochs = [sorted(R.batches[e * NB:(e + 1) * NB]) for e in range(nsbs * nepochs)]
        o['every epoch visits every batch once'] = (
            float(all([b for _, b in q] == list(range(NB)) and len({e for e, _ in q}) == 1 for q in epochs)
                  and len({q[0][0] for q in epochs}) == len(epochs)), 1.)
        want = 'ipf_loss_cont_v' if '--vmap_loss' in flags else 'ipf_loss_cont'
        o['loss'] = (jnp.array([len(R.all('ipf_loss_cont')), len(R.all('ipf_loss_cont_v'))], float),
                     jnp.array([n * (want == 'ipf_loss_cont'), n * (want == 'ipf_loss_cont_v')], float))
        optimiser(o, R.adams[-1], flags, nepochs)
        o['network'] = (float(R.one('UNet').args['upsampling'] == a['upsampling']), 1.)
        v = R.one('euler_maruyama')
        o['test drift'] = (v.args['drift'](x, t), nn(x, t, cur[1]))
        o['test dispersion'] = (v.args['dispersion'](t), sde.dispersion(t))
        o['test times'] = (plain(v['ts']), .5 - .5 * jnp.arange(3) / 2)
        return o


sb_threading(('--sde', 'lin'), 2, 2)
sb_threading(('--sde', 'const', '--vmap_loss', '--schedule', 'const', '--grad_clip', '--lr', '0.125', '--upsampling', 'resize'), 3, 1)


@ident('X07', 'sb_imgs/train: three random times', k=K)
def _sb_times(env, k):
    """ordered from 0 to T when the data are noised, from T to 0 when the reference is"""
    R = sb_train(env, (), 1, 1, nsteps=4, key=k)
    return {'times of update %d' % i: (jnp.all(s * (jnp.diff(plain(R.losses[i]['ts']))) >= 0) * 1., 1.)
            for i, s in ((0, 1.), (NB, -1.))} | \
           {'number of times': (float(R.losses[0]['ts'].shape[0]), 5.)}


def time_moments(it, i):
    def ref(env):
        lo, hi = jnp.asarray(1e-5), jnp.asarray(.5)
        m, v = (lo + hi) / 2, (hi - lo) ** 2 / 12 + ((lo + hi) / 2) ** 2
        return {'time': m, 'squared time': v, 'product of the times of two updates': m ** 2}

    @expects('X07', f'sb_imgs/train: law of the random time of update {i}', ref)
    def f(env, k):
        R = sb_train(env, (), it, 1, key=k)
        tm = [plain(c['ts'])[1] for c in R.losses]
        tm = [q if (j // NB) % 2 == 0 else .5 - q for j, q in enumerate(tm)]
        return {'time': tm[i], 'squared time': tm[i] ** 2, 'product of the times of two updates': tm[i] * tm[i - 1]}


for _i in (0, 1, NB, 2 * NB, 3 * NB):
    time_moments(2 if _i >= 2 * NB else 1, _i)


@law('X07', 'sb_imgs/train: reference samples', lambda env: {'xT': (jnp.zeros(2 * BATCH * 12), jnp.eye(2 * BATCH * 12))})
def _sb_ref(env, k):
    R = sb_train(env, (), 1, 1, key=k)
    return {'xT': jnp.concatenate([plain(R.losses[i]['init_samples']).ravel() for i in (NB, NB + 1)])}


@law('X07', 'sb_imgs/train: update keys', lambda env: {'draws': (jnp.zeros(8 * NB), jnp.eye(8 * NB))})
def _sb_keys(env, k):
    R = sb_train(env, (), 2, 2, key=k)
    return {'draws': jnp.stack([jax.random.normal(c['key']) for c in R.losses])}


# ---------------------------------------------------------------- what is trained is what is tested
def trained_tested(test, flags):
    from . import img_ids

    @ident('X07', f'{test} {" ".join(flags)} reads what the training wrote', k=K, img=r(2, 2, 3), x=r(2, 2, 3), t=p())
    def f(env, k, img, x, t):
        if test.startswith('sb_imgs'):
            R = sb_train(env, (*flags, '--dataset', 'mnist'), 2, 1)
            Q = img_ids.imgs(env, test, img[..., :1], (*flags, '--method', 'gibbs', '--y0_id', '0', '--sb_step', '1'), m=1)
        else:
            R = train(env, flags, 100)
            Q = img_ids.imgs(env, test, img, (*flags, '--test_epoch', '99'), m=1)
        o = {'checkpoint': (float(bool(Q.loaded) and set(Q.loaded) <= {s[0] for s in R.saved}), 1.)}
        keys = set().union(*[set(s[2]) for s in R.saved])
        o['entries of the checkpoint'] = (float(keys <= set(img_ids.PARAMS)), 1.)
        u, w = R.one('UNet').args, Q.one('UNet').args
        o['network'] = (float({q: z for q, z in u.items() if q != 'dt'} == {q: z for q, z in w.items() if q != 'dt'}), 1.)
        o['time scale of the network'] = (jnp.asarray(u['dt'], float), jnp.asarray(w['dt'], float))
        s = (R.one('make_linear_sde') if R.all('make_linear_sde') else R.losses[0])
        if not test.startswith('sb_imgs'):
            a, b = R.one('make_linear_sde')['sde'], img_ids.the_sde(Q, test)
            o['drift'] = (a.drift(x, t), b.drift(x, t))
            o['dispersion'] = (a.dispersion(t), b.dispersion(t))
        return o


for _t in ("imgs/inpainting", "imgs/supr", "imgs/inpainting_twisted", "imgs/supr_twisted"):
    trained_tested(_t, ('--sde', 'lin'))
for _t in ('imgs/inpainting_csgm', 'imgs/supr_csgm', 'imgs/inpainting_twisted', 'imgs/supr_twisted'):
    trained_tested(_t, ('--sde', 'const'))
trained_tested('sb_imgs/supr', ('--sde', 'lin'))
