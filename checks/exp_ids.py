"""What the experiment scripts hand to the library and store, against the model they state: identities and Gaussian laws.

Every case executes the current script (scripts.run) with the library's samplers replaced by recorders, and then compares
the recorded callbacks, arrays and saved results with the model."""
import jax
import jax.numpy as jnp
from jax.scipy.linalg import block_diag
from .sde_ids import ident, law, r, p, IDENTS, LAWS
from . import scripts
from .scripts import plain

NORM = jax.scipy.stats.norm.logpdf
K = ('key', ())
TOY = 'experiments/toy/'
KEY = []


# ---------------------------------------------------------------- recorders of the library
def fresh(a, shape, j=0):
    """opaque result number j of a library call: random values that depend on the key it was given"""
    return jax.random.normal(jax.random.fold_in(a['key'], 100 + j), tuple(shape))


def st_bootstrap(real, a, out):
    du = out.du
    n, K = a['nparticles'], a['ts'].shape[0] - 1
    return (fresh(a, (n, *du)), fresh(a, (), 1)) if a['return_last'] else (fresh(a, (K + 1, n, *du)), fresh(a, (K + 1,), 1))


def st_smoother(real, a, out):
    return fresh(a, (a['filter_us'].shape[0], *a['filter_us'].shape[2:]))


def st_gibbs(real, a, out):
    K = a['ts'].shape[0] - 1
    bs = jnp.zeros((K + 1,), int) + len(out.all('gibbs_kernel'))
    return fresh(a, a['x0'].shape), fresh(a, (K + 1, *a['x0'].shape), 1), bs, jnp.zeros((K + 1,), bool)


def st_gibbs_init(real, a, out):
    K = a['ts'].shape[0] - 1
    x = fresh(a, a['x0_shape'])
    return (x, fresh(a, (a['nparticles'],), 1)) if a['method'] == 'filter' else (x, fresh(a, (K + 1, *a['x0_shape']), 1))


def st_pmcmc(real, a, out):
    from fbs.samplers.smc import MCMCState
    s = fresh(a, (), 1)
    return (fresh(a, jnp.shape(a['uT'])), s, fresh(a, jnp.shape(a['ys']), 2),
            MCMCState(acceptance_prob=s, is_accepted=s, prop_log_ell=s, log_ell=s))


def st_twisted(real, a, out):
    n = a['nparticles']
    if getattr(out, 'weighted', None):
        return out.weighted
    return fresh(a, (n, *out.du)), jnp.full((n,), -jnp.log(n))


def st_em(real, a, out):
    K = a['ts'].shape[0] - 1
    if a['return_path']:
        return jnp.concatenate([a['x0'][None], fresh(a, (K, *a['x0'].shape))])
    return fresh(a, a['x0'].shape)


STUBS = {'fbs.samplers': {'bootstrap_filter': st_bootstrap, 'gibbs_kernel': st_gibbs, 'gibbs_init': st_gibbs_init,
                          'twisted_smc': st_twisted},
         'fbs.samplers.smc': {'bootstrap_filter': st_bootstrap, 'bootstrap_backward_smoother': st_smoother,
                              'pmcmc_kernel': st_pmcmc, 'twisted_smc': st_twisted},
         'fbs.sdes': {'euler_maruyama': st_em, 'make_linear_sde': None},
         'fbs.sdes.simulators': {'euler_maruyama': st_em}}


# ---------------------------------------------------------------- the Gaussian regression model
class GP:
    def __init__(self, d, obs):
        zs = jnp.linspace(scripts.lift(0.), scripts.lift(5.), d)
        self.C = jnp.exp(-jnp.abs(zs[:, None] - zs[None, :]))
        self.R = self.C + obs * jnp.eye(d)
        self.S = jnp.block([[self.C, self.C], [self.C, self.R]])
        self.d = d


def solve(A, b):
    return jax.scipy.linalg.cho_solve((jnp.linalg.cholesky(A), True), b)


def toy(name, d, sde, n=2, m=2, chains=1, nsteps=3, extra=(), **attrs):
    """run the script; T = 1; returns (run, sde, F, Q) with the transition of the script's own SDE from time zero"""
    argv = ['--d', d, '--nsamples', m, '--sde', sde, *extra]
    if name != 'gp_csgm':
        argv += ['--nparticles', n]
    if name in ('gp_gibbs', 'gp_pmcmc'):
        argv += ['--nchains', chains]
    R = scripts.run(TOY + name + '.py', argv, STUBS, {'nsteps': nsteps}, du=(d,), **attrs)
    sde = R.one('make_linear_sde')['sde']
    disc = R.one('make_linear_sde').ret[0]
    return R, sde, lambda t: disc(t, 0.)


def joint_rev(sde, disc, S, z, t, m=0., T=1.):
    """Euler mean increment and dispersion of the time reversal of the noised joint at reverse time t"""
    F, Q = disc(T - t)
    Sig = F ** 2 * S + Q * jnp.eye(S.shape[0])
    sc = -solve(Sig, z - F * m)
    b = sde.dispersion(T - t)
    return -sde.drift(z, T - t) + b ** 2 * sc, b


def callbacks(c, rev, d, u, v, u1, v1, t, dt):
    """transition and likelihood densities of one Euler--Maruyama step of the reversal, block by block"""
    res = {}
    mean, b = [], None
    for i in range(u.shape[0]):
        f, b = rev(jnp.concatenate([u[i], v]), t)
        mean.append(jnp.concatenate([u[i], v]) + dt * f)
    mean = jnp.stack(mean)
    s = b * jnp.sqrt(dt)
    if 'transition_logpdf' in c.args:
        res['transition density'] = (c.args['transition_logpdf'](u1, u, v, t),
                                     jnp.sum(NORM(u1[None], mean[:, :d], s), axis=1))
    ll = c.args.get('likelihood_logpdf') or c.args['measurement_cond_pdf']
    res['likelihood'] = (ll(v1, u, v, t), jnp.sum(NORM(v1[None], mean[:, d:], s), axis=1))
    return res


def step_ref(rev, d, u, v, t, dt):
    mean, b = [], None
    for i in range(u.shape[0]):
        f, b = rev(jnp.concatenate([u[i], v]), t)
        mean.append((jnp.concatenate([u[i], v]) + dt * f)[:d])
    return jnp.stack(mean).ravel(), dt * b ** 2 * jnp.eye(u.shape[0] * d)


def grid(ts, K, T=1.):
    return {'time grid': (ts, jnp.linspace(0., T, K + 1))}


# ---------------------------------------------------------------- X01: reverse-time model of the toy samplers
MAIN = {'gp_gibbs': 'gibbs_kernel', 'gp_filter': 'bootstrap_filter', 'gp_pmcmc': 'pmcmc_kernel'}


def x01(name, d, sde):
    inp = dict(u=r(2, d), v=r(d), u1=r(d), v1=r(d), tau=p())

    @ident('X01', f'toy/{name} {sde} d={d}: densities', k=K, **inp)
    def f(env, k, u, v, u1, v1, tau):
        R, s, disc = toy(name, d, sde)
        gp = GP(d, 1.)
        res = {}
        calls = [c for nm in ('gibbs_kernel', 'bootstrap_filter', 'pmcmc_kernel') for c in R.all(nm)]
        for j, c in enumerate(calls[:1] + calls[-1:]):
            ts = plain(c.args['ts'])
            o = callbacks(c, lambda z, t: joint_rev(s, disc, gp.S, z, t), d, u, v, u1, v1, 1 - tau, ts[1] - ts[0])
            o.update(grid(ts, 3))
            res.update({f'{q} ({j})': w for q, w in o.items()})
        return res

    def ref(env, u, v, tau):
        R, s, disc = toy(name, d, sde)
        m, c = step_ref(lambda z, t: joint_rev(s, disc, GP(d, 1.).S, z, t), d, u, v, 1 - tau, scripts.lift(1.) / 3)
        return {'one step': (m, c)}

    @law('X01', f'toy/{name} {sde} d={d}: transition', ref, u=r(2, d), v=r(d), tau=p())
    def g(env, k, u, v, tau):
        R, s, disc = toy(name, d, sde)
        return {'one step': R.one(MAIN[name]).args['transition_sampler'](u, v, 1 - tau, k).ravel()}


for _n in MAIN:
    for _d, _s in ((1, 'const'), (1, 'lin'), (2, 'const')):
        x01(_n, _d, _s)


# ---------------------------------------------------------------- X02: reference distribution and observation paths
def gauss_cond(S, d, y):
    """mean and covariance of the first d coordinates of N(0, S) given the others"""
    A, B, D = S[:d, :d], S[:d, d:], S[d:, d:]
    return B @ solve(D, y), A - B @ solve(D, B.T)


def fwd_path(sde, disc, C, K, given=None, T=1.):
    """mean and covariance of the forward noising at the K+1 grid times, started at `given` or at N(0, C)"""
    ts = [T * scripts.lift(float(i)) / K for i in range(K + 1)]
    n = C.shape[0]
    FQ = [disc(t) for t in ts]
    mean = jnp.stack([f * given for f, _ in FQ]) if given is not None else jnp.zeros((K + 1, n))
    rows = []
    for i in range(K + 1):
        row = []
        for j in range(K + 1):
            a, b = min(i, j), max(i, j)
            noise = FQ[b][0] / FQ[a][0] * FQ[a][1] * jnp.eye(n)
            row.append(noise if given is not None else FQ[i][0] * FQ[j][0] * C + noise)
        rows.append(row)
    return mean.ravel(), jnp.block(rows)


def samplers_of(R):
    """every reference sampler the script passes on, as f(key, y, n)"""
    return [c.args['init_sampler'] for c in R.all('bootstrap_filter')[:1]] + \
           [c.args['ref_sampler'] for c in R.all('pmcmc_kernel')[-1:]]


def x02(name, d, sde):
    def ref(env, y):
        R, s, disc = toy(name, d, sde, m=1)
        gp = GP(d, 1.)
        F, Q = disc(scripts.lift(1.))
        m, c = gauss_cond(F ** 2 * gp.S + Q * jnp.eye(2 * d), d, y)
        return {f'reference ({j})': (jnp.concatenate([m, m]), block_diag(c, c)) for j in range(len(samplers_of(R)))}

    @law('X02', f'toy/{name} {sde} d={d}: terminal conditional', ref, y=r(d))
    def f(env, k, y):
        R, s, disc = toy(name, d, sde, m=1)
        return {f'reference ({j})': g(k, y, 2).ravel() for j, g in enumerate(samplers_of(R))}

    def pref(env):
        R, s, disc = toy(name, d, sde, m=1, nsteps=2)
        m, c = fwd_path(s, disc, GP(d, 1.).R, 2)
        return {q: (m, c) for q in paths(R)}

    def paths(R):
        o = {f'measurements of the filter ({j})': plain(c.args['vs'])[..., ::-1, :].ravel()
             for j, c in enumerate(R.all('bootstrap_filter')[:1])}
        o.update({f'initial observation path ({j})': plain(c.args['ys']).ravel() for j, c in enumerate(R.all('pmcmc_kernel')[:1])})
        return o

    @law('X02', f'toy/{name} {sde} d={d}: observation path', pref)
    def g(env, k):
        R, s, disc = toy(name, d, sde, m=1, nsteps=2, key=k)
        return paths(R)
    if name == 'gp_filter':
        return

    def callee(R):
        return [c for nm in ('gibbs_kernel', 'pmcmc_kernel') for c in R.all(nm)][-1].args

    def sref(env, x, y):
        R, s, disc = toy(name, d, sde, m=1, nsteps=2)
        o = {}
        for q, z in (('fwd_sampler', jnp.concatenate([x, y])), ('fwd_ys_sampler', y)):
            if q in callee(R):
                o[q] = fwd_path(s, disc, jnp.eye(len(z)), 2, z)
        return o

    @law('X02', f'toy/{name} {sde} d={d}: noising sampler', sref, x=r(d), y=r(d))
    def h(env, k, x, y):
        R, s, disc = toy(name, d, sde, m=1, nsteps=2)
        a = callee(R)
        o = {}
        if 'fwd_sampler' in a:
            o['fwd_sampler'] = a['fwd_sampler'](k, x, y).ravel()
        if 'fwd_ys_sampler' in a:
            o['fwd_ys_sampler'] = a['fwd_ys_sampler'](k, y).ravel()
        return o


for _n in MAIN:
    for _d, _s in ((1, 'const'), (1, 'lin'), (2, 'const')):
        x02(_n, _d, _s)


# ---------------------------------------------------------------- X03: guided samplers (twisted, conditional score)
def marg_rev(sde, disc, C, z, t, m=0.):
    F, Q = disc(1 - t)
    b = sde.dispersion(1 - t)
    return -sde.drift(z, 1 - t) - b ** 2 * solve(F ** 2 * C + Q * jnp.eye(C.shape[0]), z - F * m), b


def x03t(d, sde):
    dt = lambda: scripts.lift(1.) / 3

    def dens(s, disc, gp, y, u, u1, t):
        fu, b = marg_rev(s, disc, gp.C, u, t)
        tw = lambda z: jnp.sum(NORM(y, z + marg_rev(s, disc, gp.C, z, t)[0] * dt(), 1.))
        sd = b * jnp.sqrt(dt())
        pm = u + dt() * (fu + b ** 2 * jax.grad(tw)(u))
        return jnp.sum(NORM(u1, u + dt() * fu, sd)), tw(u), jnp.sum(NORM(u1, pm, sd)), pm, sd

    @ident('X03', f'toy/gp_twisted {sde} d={d}: densities', k=K, u=r(2, d), u1=r(2, d), y=r(d), tau=p())
    def f(env, k, u, u1, y, tau):
        R, s, disc = toy('gp_twisted', d, sde, m=1)
        gp = GP(d, 1.)
        a = R.one('twisted_smc').args
        t = 1 - tau
        want = [dens(s, disc, gp, y, u[i], u1[i], t) for i in range(2)]
        o = {'transition density': (a['transition_logpdf'](u1, u, t), jnp.stack([w[0] for w in want])),
             'twisting density': (a['twisting_logpdf'](y, u, t), jnp.stack([w[1] for w in want])),
             'proposal density': (a['twisting_prop_logpdf'](u1, u, t, y), jnp.stack([w[2] for w in want]))}
        o.update(grid(plain(a['ts']), 3))
        return o

    def ref(env, u, y, tau):
        R, s, disc = toy('gp_twisted', d, sde, m=1)
        gp = GP(d, 1.)
        w = [dens(s, disc, gp, y, u[i], u[i], 1 - tau) for i in range(2)]
        F, Q = disc(scripts.lift(1.))
        c = F ** 2 * gp.C + Q * jnp.eye(d)
        return {'proposal': (jnp.concatenate([x[3] for x in w]), w[0][4] ** 2 * jnp.eye(2 * d)),
                'initial particles': (jnp.zeros(2 * d), block_diag(c, c))}

    @law('X03', f'toy/gp_twisted {sde} d={d}: proposal', ref, u=r(2, d), y=r(d), tau=p())
    def g(env, k, u, y, tau):
        R, s, disc = toy('gp_twisted', d, sde, m=1)
        a = R.one('twisted_smc').args
        return {'proposal': a['twisting_prop_sampler'](k, u, 1 - tau, y).ravel(), 'initial particles': a['init_sampler'](k, 2).ravel()}


def x03c(d, sde):
    def post(gp):
        return gp.C @ solve(gp.R, gp.C)

    def ref(env):
        R, s, disc = toy('gp_csgm', d, sde, m=1)
        gp = GP(d, 1.)
        F, Q = disc(scripts.lift(1.))
        z = post(gp)
        return {'(posterior mean, initial state minus its conditional mean)':
                (jnp.zeros(2 * d), block_diag(z, F ** 2 * (gp.C - z) + Q * jnp.eye(d)))}

    @law('X03', f'toy/gp_csgm {sde} d={d}: initial state', ref)
    def f(env, k):
        R, s, disc = toy('gp_csgm', d, sde, m=1, key=k)
        mean = R.saved[-1][2]['gp_mean']
        F, Q = disc(scripts.lift(1.))
        return {'(posterior mean, initial state minus its conditional mean)':
                jnp.concatenate([mean, plain(R.one('euler_maruyama').args['x0']) - F * mean])}

    @ident('X03', f'toy/gp_csgm {sde} d={d}: drift', k=K, u=r(d), tau=p())
    def g(env, k, u, tau):
        R, s, disc = toy('gp_csgm', d, sde, m=1)
        gp = GP(d, 1.)
        a = R.one('euler_maruyama').args
        w, b = marg_rev(s, disc, gp.C - post(gp), u, 1 - tau, R.saved[-1][2]['gp_mean'])
        o = {'drift': (a['drift'](u, 1 - tau), w), 'dispersion': (a['dispersion'](1 - tau), b)}
        o.update(grid(plain(a['ts']), 3))
        return o


for _d, _s in ((1, 'const'), (1, 'lin'), (2, 'const')):
    x03t(_d, _s)
    x03c(_d, _s)


# ---------------------------------------------------------------- X04: Gaussian Schroedinger bridge scripts
def bridge(env, d):
    """arbitrary marginal mean m(t), covariance L(t) L(t)^T and drift b(z, t) of the bridge"""
    n = 2 * d
    m, q, w, b = env.uf('m', 2), env.uf('q', 2), env.uf('w', 3), env.uf('b', n + 2)

    def mean(t):
        return jnp.stack([m(float(i), t) for i in range(n)])

    def chol(t):
        return jnp.stack([jnp.stack([q(float(i), t) if i == j else w(float(i), float(j), t) if j < i else jnp.zeros(())
                                     for j in range(n)]) for i in range(n)])

    def cov(t):
        return chol(t) @ chol(t).T

    def drift(z, t):
        return jnp.stack([b(*[z[..., k] for k in range(n)], float(i), t) for i in range(n)], axis=-1)
    return mean, cov, drift


def ref_factor(env, d):
    """the random factor a of the script's reference covariance a a^T: block upper triangular with positive diagonals"""
    q, w = env.uf('q', 2), env.uf('w', 3)
    n = 2 * d
    blk = lambda i: i // d
    return jnp.stack([jnp.stack([q(float(i), 7.) if i == j else w(float(i), float(j), 7.)
                                 if blk(j) > blk(i) or blk(i) == blk(j) and j < i else jnp.zeros(()) for j in range(n)])
                      for i in range(n)])


def st_sb(real, a, out):
    return bridge(out.env, out.du[0])


def st_normal(real, a, out):
    d = out.du[0]
    if tuple(a['shape']) == (2 * d, 2 * d) and not out.all('make_gaussian_bw_sb'):
        return ref_factor(out.env, d)
    return real(a['key'], a['shape'])


def sb(env, name, d, n=2, m=2, nsteps=3, extra=(), **attrs):
    stubs = dict(STUBS)
    stubs['fbs.sdes'] = {**STUBS['fbs.sdes'], 'make_gaussian_bw_sb': st_sb}
    stubs['jax.random'] = {'normal': st_normal}
    return scripts.run(f'experiments/sb/{name}.py', ['--d', d, '--nsamples', m, '--nparticles', n, *extra], stubs,
                       {'nsteps': nsteps}, du=(d,), env=env, **attrs)


def sb_rev(env, d):
    mean, cov, drift = bridge(env, d)

    def rev(z, t):
        return -drift(z, 1 - t) - solve(cov(1 - t), z - mean(1 - t)), 1.
    return rev


SBMAIN = {'filter': 'bootstrap_filter', 'gibbs': 'gibbs_kernel'}


def x04(name, d):
    @ident('X04', f'sb/{name} d={d}: densities', k=K, u=r(2, d), v=r(d), u1=r(d), v1=r(d), tau=p(), z=r(2 * d))
    def f(env, k, u, v, u1, v1, tau, z):
        R = sb(env, name, d)
        gp = GP(d, .1)
        res = {}
        calls = [c for nm in ('gibbs_kernel', 'bootstrap_filter') for c in R.all(nm)]
        for j, c in enumerate(calls[:1] + calls[-1:]):
            ts = plain(c.args['ts'])
            o = callbacks(c, sb_rev(env, d), d, u, v, u1, v1, 1 - tau, ts[1] - ts[0])
            o.update(grid(ts, 3))
            res.update({f'{q} ({j})': w for q, w in o.items()})
        a = R.one('make_gaussian_bw_sb').args
        A = ref_factor(env, d)
        res['initial marginal of the bridge: mean'] = (a['mean0'], jnp.zeros(2 * d))
        res['initial marginal of the bridge: covariance'] = (a['cov0'], gp.S)
        res['reference covariance'] = (a['cov1'], A @ A.T)
        res['unit noise'] = (jnp.asarray(a['sig'], float), 1.)
        e = R.one('euler_maruyama').args
        res['forward drift'] = (e['drift'](z, tau), bridge(env, d)[2](z, tau))
        res['forward dispersion'] = (jnp.asarray(e['dispersion'](tau), float), 1.)
        res['forward grid'] = (plain(e['ts']), jnp.linspace(0., 1., 4))
        if name == 'gibbs':
            path = R.one('gibbs_kernel').args['fwd_sampler'](k, u[0], v)
            c = R.all('euler_maruyama')[-1]
            res['forward path of the kernel'] = (path, c.ret)
            res['start of the forward path of the kernel'] = (c.args['x0'], jnp.concatenate([u[0], v]))
            res['grid of the forward path of the kernel'] = (c.args['ts'], jnp.linspace(0., 1., 4))
            res['drift of the forward path of the kernel'] = (c.args['drift'](z, tau), bridge(env, d)[2](z, tau))
            res['dispersion of the forward path of the kernel'] = (jnp.asarray(c.args['dispersion'](tau), float), 1.)
        vs = plain(R.one('bootstrap_filter').args['vs'])
        res['measurements are the reversed observation path'] = (vs[::-1], plain(R.one('euler_maruyama').ret)[:, d:])
        return res

    def ref(env, u, v, tau, y):
        m, c = step_ref(sb_rev(env, d), d, u, v, 1 - tau, scripts.lift(1.) / 3)
        A = ref_factor(env, d)
        S = A @ A.T
        mr = jnp.ones(2 * d)
        rm, rc = gauss_cond(S, d, y - mr[d:])
        rm = rm + mr[:d]
        return {'one step': (m, c), 'reference': (jnp.concatenate([rm, rm]), block_diag(rc, rc))}

    @law('X04', f'sb/{name} d={d}: transition and reference', ref, u=r(2, d), v=r(d), tau=p(), y=r(d))
    def g(env, k, u, v, tau, y):
        R = sb(env, name, d, m=1)
        k1, k2 = jax.random.split(k)
        return {'one step': R.one(SBMAIN[name]).args['transition_sampler'](u, v, 1 - tau, k1).ravel(),
                'reference': samplers_of(R)[0](k2, y, 2).ravel()}
    for how in (['proper', 'heuristic'] if name == 'filter' else ['heuristic']):
        def ref2(env, how=how):
            gp = GP(d, .1)
            return {'start': (jnp.zeros(2 * d), gp.S if how == 'proper' else block_diag(jnp.eye(d), gp.R))}

        @law('X04', f'sb/{name} d={d}: start of the forward path ({how})', ref2)
        def h(env, k, how=how):
            R = sb(env, name, d, m=1, extra=['--x0', how] if name == 'filter' else [], key=k)
            return {'start': plain(R.one('euler_maruyama').args['x0'])}


for _n in SBMAIN:
    for _d in (1, 2):
        x04(_n, _d)


# ---------------------------------------------------------------- X06: what is stored, and how the chains advance
def among(x, us):
    """zero exactly when x is one of the rows of us"""
    q = 1.
    for i in range(us.shape[0]):
        q = q * jnp.sum((x - us[i]) ** 2)
    return q


def the_y0(R, d):
    for nm, get in (('gibbs_kernel', lambda c: c['y0']), ('pmcmc_kernel', lambda c: c['y0']), ('twisted_smc', lambda c: c['y']),
                    ('bootstrap_filter', lambda c: c['vs'][..., -1, :])):
        if R.all(nm):
            return get(R.all(nm)[0]).reshape(-1, d)[0]


def saved(R):
    if len(R.saved) != 1:
        raise LookupError(f'{len(R.saved)} result files written')
    return R.saved[0][2]


def posterior(R, obs, d):
    gp, o = GP(d, obs), saved(R)
    z = gp.C @ solve(gp.R, gp.C)
    return {'saved posterior mean': (o['gp_mean'], gp.C @ solve(gp.R, the_y0(R, d))),
            'saved posterior covariance': (o['gp_cov'], gp.C - z)}


def x06post(name, d, sde):
    @ident('X06', f'toy/{name} d={d}: stored posterior', k=K)
    def f(env, k):
        return posterior(toy(name, d, sde, m=1, nsteps=2)[0], 1., d)


def x06chain(script, kernel, d, chains):
    """two kernel steps per chain: initial state, threading, stored samples"""
    def go(env, *flags):
        if script.startswith('toy/'):
            return toy(script[4:], d, 'const', m=2, chains=chains, nsteps=2, extra=flags)[0]
        return sb(env, script[3:], d, nsteps=2, extra=flags)

    @ident('X06', f'{script} d={d} chains={chains}: chain', k=K)
    def f(env, k):
        R = go(env)
        cs, b = R.all(kernel), R.one('bootstrap_filter')
        if len(cs) != 2:
            raise LookupError(f'{len(cs)} kernel calls for two samples')
        o, lift_ = {}, (lambda x, nd: jnp.broadcast_to(x, (chains, *x.shape[x.ndim - nd:])))
        us, nell = b.result[0], b.result[1]
        vs = lift_(b['vs'], 2)
        out = saved(R)['samples']
        out = out.reshape(chains, 2, d)
        st = 'x0' if kernel == 'gibbs_kernel' else 'uT'
        us = lift_(us, 3 if kernel == 'gibbs_kernel' else 2)
        us = us[:, -1] if kernel == 'gibbs_kernel' else us
        for c in range(chains):
            o[f'chain {c} starts from a particle of the initial filter'] = (among(lift_(cs[0][st], 1)[c], us[c]), 0.)
            for i in range(2):
                ret = lift_(cs[i].result[0], 1)[c]
                o[f'chain {c} sample {i}'] = (out[c, i], ret)
            o[f'chain {c} continues from its sample'] = (lift_(cs[1][st], 1)[c], lift_(cs[0].result[0], 1)[c])
            if kernel == 'pmcmc_kernel':
                o[f'chain {c} initial log-likelihood'] = (lift_(cs[0]['log_ell'], 0)[c], -lift_(nell, 0)[c])
                o[f'chain {c} initial path'] = (lift_(cs[0]['ys'], 2)[c], vs[c, ::-1])
                o[f'chain {c} log-likelihood'] = (lift_(cs[1]['log_ell'], 0)[c], lift_(cs[0].result[1], 0)[c])
                o[f'chain {c} path'] = (lift_(cs[1]['ys'], 2)[c], lift_(cs[0].result[2], 2)[c])
            else:
                bs = lambda i: cs[i]['bs_star']
                o[f'chain {c} initial indices are valid'] = (sum(jnp.prod(lift_(bs(0), 1)[c][:, None] - jnp.arange(2)[None],
                                                                         axis=1) ** 2), 0)
                o[f'chain {c} indices'] = (lift_(bs(1), 1)[c] * 1., lift_(cs[0].result[2], 1)[c] * 1.)
        for i in range(2):
            o[f'observation of step {i}'] = (cs[i]['y0'].reshape(-1, d)[0], the_y0(R, d))
        o['the initial filter ends at the observation'] = (vs[:, -1], jnp.stack([the_y0(R, d)] * chains))
        return o

    @ident('X06', f'{script} d={d}: options', k=K)
    def g(env, k):
        o = {}
        flags = {'gibbs_kernel': (('--explicit_backward', 'explicit_backward'), ('--explicit_final', 'explicit_final'),
                                  ('--marg', 'marg_y'))}.get(kernel, ())
        if script == 'sb/gibbs':
            flags = flags[:1]
        for q in ((),) + tuple((z,) for z, _ in flags):
            a = go(env, *q).one(kernel).args
            for z, arg in flags:
                o[f'{arg} with {q}'] = (float(bool(a[arg])), float(z in q))
            o[f'number of particles with {q}'] = (a['nparticles'], 2)
        if kernel == 'pmcmc_kernel':
            o['delta'] = (go(env, '--delta', '0.25').one(kernel).args['delta'], .25)
        return o


def x06keys(script, callee, d, chains=1):
    """the keys of the data, the initialisation and the successive sampler calls: independent randomness"""
    def calls(R):
        return R.all('bootstrap_filter')[:1] + R.all(callee) if callee != 'bootstrap_filter' else R.all(callee)

    def keys(env, k):
        toy_ = script.startswith('toy/')
        R = toy(script[4:], d, 'const', m=2, chains=chains, nsteps=2, key=k)[0] if toy_ else sb(env, script[3:], d, nsteps=2, key=k)
        ks = [c['key'].reshape(-1, 2) for c in calls(R)]
        return [q[i] for q in ks for i in range(q.shape[0])]

    n = chains * (2 + (callee in ('gibbs_kernel', 'pmcmc_kernel')))

    @law('X06', f'{script} d={d} chains={chains}: keys', lambda env: {'draws': (jnp.zeros(n), jnp.eye(n))})
    def f(env, k):
        qs = keys(env, k)
        return {'draws': jnp.stack([jax.random.normal(q) for q in qs])}


def x06plain(script, callee, d):
    @ident('X06', f'{script} d={d}: stored samples', k=K)
    def f(env, k):
        R = toy(script[4:], d, 'const', nsteps=2)[0] if script.startswith('toy/') else sb(env, script[3:], d, nsteps=2)
        cs, out = R.all(callee), saved(R)['samples']
        if callee == 'euler_maruyama':
            return {f'sample {i}': (out[i], c.result) for i, c in enumerate(cs)}
        if callee == 'twisted_smc':
            o = {f'number of particles {i}': (c.args['nparticles'], 2) for i, c in enumerate(cs)}
        else:
            o = {f'sample {i} is a particle': (among(out[i], c.result[0]), 0.) for i, c in enumerate(cs)}
            o.update({f'number of particles {i}': (c.args['nparticles'], 2) for i, c in enumerate(cs)})
        o['number of samples'] = (float(len(cs)), float(out.shape[0]))
        return o


for _n in ('gp_gibbs', 'gp_filter', 'gp_pmcmc', 'gp_twisted', 'gp_csgm'):
    for _d in (1, 2):
        if _n != 'gp_csgm':
            x06post(_n, _d, 'const')
for _s, _k in (('toy/gp_gibbs', 'gibbs_kernel'), ('toy/gp_pmcmc', 'pmcmc_kernel')):
    x06chain(_s, _k, 1, 2)
    x06chain(_s, _k, 2, 1)
x06chain('sb/gibbs', 'gibbs_kernel', 1, 1)
for _s, _k in (('toy/gp_filter', 'bootstrap_filter'), ('sb/filter', 'bootstrap_filter'), ('toy/gp_csgm', 'euler_maruyama'),
               ('toy/gp_twisted', 'twisted_smc')):
    x06plain(_s, _k, 2)


for _s, _k, _c in (('toy/gp_gibbs', 'gibbs_kernel', 2), ('toy/gp_pmcmc', 'pmcmc_kernel', 2), ('sb/gibbs', 'gibbs_kernel', 1),
                   ('toy/gp_filter', 'bootstrap_filter', 1), ('sb/filter', 'bootstrap_filter', 1),
                   ('toy/gp_csgm', 'euler_maruyama', 1), ('toy/gp_twisted', 'twisted_smc', 1)):
    x06keys(_s, _k, 1, _c)
MIXES = {}


def x06mix(d, n):
    """the stored sample of the twisted sampler is a particle drawn with the returned weights: first two moments"""
    def ws(w):
        return w / jnp.sum(w)

    def ref(env, u, w):
        q = ws(w)
        return {'sample': jnp.sum(q[:, None] * u, axis=0), 'square': jnp.sum(q[:, None] * u ** 2, axis=0)}

    def f(env, k, u, w):
        R = toy('gp_twisted', d, 'const', n=n, m=1, nsteps=2, weighted=(u, jnp.log(ws(w))), key=k)[0]
        x = saved(R)['samples'][0]
        return {'sample': x, 'square': x ** 2}
    MIXES.setdefault('X06', []).append((f'toy/gp_twisted d={d} N={n}: choice of the stored sample', f, ref,
                                        dict(u=r(n, d), w=p(n))))


x06mix(1, 2)
x06mix(2, 2)
x06mix(1, 3)
