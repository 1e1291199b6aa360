"""Finite state-space models used as user callbacks of the real samplers.  Shared by the symbolic checks (symbolic
tables) and by the replays (floating point tables); nothing here depends on the symbolic engine.

u in {0,1} (array (n,1)), v_k is identified by its index k, t_k by its index k.  Tables are indexed by the identities of
every argument the documented signature promises, so a sampler that passes the wrong v, t or particle reads an
unrelated table entry.
"""
from fractions import Fraction
import numpy as np
import jax
import jax.numpy as jnp

S = 2


def layout(K, p1, g0, tr, li):
    """p1 = P(u_0=1); g0[u]; tr[k][u] = P(u_{k+1}=1|u_k=u); li[k][u] = p(v_{k+1}|u_k=u).  Entries that the documented
    protocol never touches hold unrelated numbers."""
    V = K + 1
    p0 = np.array([1 - p1, p1], object)
    g = np.full((V, V, S), Fraction(13, 3), object)
    g[..., 1] = Fraction(1, 5)
    for u in range(S):
        g[0, min(1, K), u] = g0[u]
    t = np.empty((V, V, S, S), object)
    for a in range(V):
        for b in range(V):
            for u in range(S):
                q = Fraction(1 + a + 2 * b + 3 * u, 29)
                t[a, b, u, 1] = q
                t[a, b, u, 0] = 1 - q
    for k in range(K):
        for u in range(S):
            t[k, k, u, 1] = tr[k][u]
            t[k, k, u, 0] = 1 - tr[k][u]
    l = np.empty((V, V, V, S), object)
    for i in np.ndindex(V, V, V, S):
        l[i] = Fraction(3 + 2 * i[0] + 5 * i[1] + 7 * i[2] + 11 * i[3], 1 + i[0] + i[3])
    for k in range(K):
        for u in range(S):
            l[k + 1, k, k, u] = li[k][u]
    return dict(p0=p0, g0=g, tr=t, li=l)


def ii(x):
    return jnp.asarray(x).astype(jnp.int64)


def callbacks(tb):
    """the user-side callables.  tb: dict of tables."""
    def init_sampler_n(key, n):
        return jax.random.choice(key, S, (n,), p=tb['p0']).astype(jnp.float64)[:, None]

    def init_sampler_v(key, v0, n):
        return init_sampler_n(key, n)

    def init_sampler_y(key, v0, n):
        # p(u_0 | v_0): v_0 has index 0; any other argument selects an unrelated law
        p = jnp.where(jnp.reshape(v0, (-1,))[0] == 0., tb['p0'], jnp.array([.5, .5]))
        return jax.random.choice(key, S, (n,), p=p).astype(jnp.float64)[:, None]

    def init_loglik(v0, u0s, v1, *a, **k):
        return jnp.log(tb['g0'][ii(v0[0]), ii(v1[0])][ii(u0s[:, 0])])

    def transition_sampler(us, v, t, key, **k):
        p = tb['tr'][ii(v[0]), ii(t)][ii(us[:, 0])]
        keys = jax.random.split(key, us.shape[0])
        return jax.vmap(lambda kk, q: jax.random.choice(kk, S, (), p=q))(keys, p).astype(jnp.float64)[:, None]

    def transition_logpdf(u, us_prev, v, t, **k):
        return jnp.log(tb['tr'][ii(v[0]), ii(t)][ii(us_prev[:, 0]), ii(u[0])])

    def lik_logpdf(v, us_prev, v_prev, t, **k):
        return jnp.log(tb['li'][ii(v[0]), ii(v_prev[0]), ii(t)][ii(us_prev[:, 0])])

    def lik_pdf(v, us_prev, v_prev, t, **k):
        return tb['li'][ii(v[0]), ii(v_prev[0]), ii(t)][ii(us_prev[:, 0])]

    return dict(init_n=init_sampler_n, init_v=init_sampler_v, init_v_y=init_sampler_y, init_loglik=init_loglik, trans=transition_sampler,
                trans_logpdf=transition_logpdf, lik=lik_logpdf, lik_pdf=lik_pdf)


def vs_ts(K):
    return jnp.arange(K + 1.)[:, None], jnp.arange(K + 1.)


# ---------------------------------------------------------------- the real entry points, closed over the callbacks
def csmc(K, N, backward, scheme):
    from fbs.samplers.csmc import csmc as C, resamplings as CR

    def f(tb, us, bs, k):
        cb = callbacks(tb)
        vs, ts = vs_ts(K)
        return C.csmc_kernel(k, us, bs, vs, ts, cb['init_n'], cb['init_loglik'], cb['trans'], cb['trans_logpdf'],
                             cb['lik'], getattr(CR, scheme), N - 1, backward)
    return f


def csmc_forward(K, N, scheme):
    from fbs.samplers.csmc import csmc as C, resamplings as CR

    def f(tb, us, bs, k):
        cb = callbacks(tb)
        vs, ts = vs_ts(K)
        return C.forward_pass(k, us, bs, vs, ts, cb['init_n'], cb['init_loglik'], cb['trans'], cb['lik'],
                              getattr(CR, scheme), N - 1)
    return f


def scheme(name):
    from fbs.samplers import resampling as R
    from fbs.samplers.csmc import resamplings as CR
    mod, f = name.split('.')
    if mod == 'csmc':
        return lambda w, k: getattr(CR, f)(k, w, 0, 0, False)
    return getattr(R, f)


def bootstrap(K, N, sch, log=True, return_last=True):
    from fbs.samplers.smc import bootstrap_filter

    def f(tb, k):
        cb = callbacks(tb)
        vs, ts = vs_ts(K)
        return bootstrap_filter(cb['trans'], cb['lik'] if log else cb['lik_pdf'], vs, ts, cb['init_v'], k, N,
                                scheme(sch), log=log, return_last=return_last)
    return f


def pmcmc_step(K, N, sch):
    from fbs.samplers.smc import pmcmc_filter_step

    def f(tb, u0s, k):
        cb = callbacks(tb)
        vs, ts = vs_ts(K)
        return pmcmc_filter_step(k, vs, u0s, ts, cb['trans'], cb['lik'], scheme(sch), N)
    return f


def smoother(K, N, lik=False):
    """particles are identified by k*N + i; D[k][i][j] transition density between particle i at k and j at k+1."""
    from fbs.samplers.smc import bootstrap_backward_smoother

    def f(D, k):
        vs, ts = vs_ts(K)
        us = jnp.arange((K + 1) * N * 1.).reshape(K + 1, N, 1)

        def logpdf(u, us_prev, v, t):
            return jnp.log(D[ii(v[0]), ii(t)][ii(us_prev[:, 0]), ii(u[0])])
        return bootstrap_backward_smoother(k, us, vs, ts, logpdf)
    return f


def smoother_layout(K, N, D):
    P = (K + 1) * N
    V = K + 1
    t = np.full((V, V, P, P), Fraction(1, 3), object)
    for i in np.ndindex(*t.shape):
        t[i] = Fraction(1 + (3 * i[0] + 5 * i[1] + 7 * i[2] + 11 * i[3]) % 13, 7)
    for k in range(K):
        for i in range(N):
            for j in range(N):
                t[k, k, k * N + i, (k + 1) * N + j] = D[k][i][j]
    return t


# ---------------------------------------------------------------- exact reference values
class Model:
    """generic over the arithmetic (floats, Fractions, symbolic values)."""

    def __init__(self, K, p1, g0, tr, li):
        self.K, self.p1, self.g0, self.tr, self.li = K, p1, g0, tr, li

    def T(self, k, u, un):
        return self.tr[k][u] if un == 1 else 1 - self.tr[k][u]

    def P0(self, u):
        return self.p1 if u == 1 else 1 - self.p1

    def target(self, traj):
        w = self.P0(traj[0]) * self.g0[traj[0]]
        for k in range(self.K):
            w = w * self.T(k, traj[k], traj[k + 1]) * self.li[k][traj[k]]
        return w

    def tables(self):
        return layout(self.K, self.p1, self.g0, self.tr, self.li)


def random_model(K, seed, g0=True):
    r = np.random.RandomState(seed)
    pr = lambda: float(r.uniform(.1, .9))
    po = lambda: float(np.exp(r.uniform(-1.5, 1.5)))
    return Model(K, pr(), [po(), 1.] if g0 else [1., 1.], [[pr(), pr()] for _ in range(K)],
                 [[po(), 1.] for _ in range(K)])


def pmcmc(K, N, sch, delta=None, which_u=0):
    """ys are chosen so that the reversed path is v_k = k; the forward sampler checks that it is handed y0."""
    from fbs.samplers.smc import pmcmc_kernel

    def f(tb, uT, ll, ys, k):
        cb = callbacks(tb)
        ts = vs_ts(K)[1]

        def fwd(key, y0):
            # p(ys | y0): a deterministic path that starts at y0 (= K) and decreases
            return y0[None] - jnp.arange(K + 1.)[:, None]
        return pmcmc_kernel(k, uT, ll, ys, jnp.array([K * 1.]), ts, fwd, None, cb['init_v_y'], cb['trans'], cb['lik'],
                            scheme(sch), N, delta=delta, which_u=which_u)
    return f


def twisted(K, N):
    """states in {0,1}; tables: p0, psi[t][u], p[t][u][u'], q[t][u][u'] (t = index of the time handed over)."""
    from fbs.samplers.smc import twisted_smc

    def f(tb, k):
        ts = jnp.arange(K + 1.)
        y = jnp.array([5.])
        g = lambda nm, t: tb[nm][ii(t)]

        def chk(y):
            return ii(y[0] != 5.)            # anything but y itself selects an unrelated table

        def init_sampler(key, n):
            return jax.random.choice(key, S, (n,), p=tb['p0']).astype(jnp.float64)[:, None]

        def transition_logpdf(xs, xs_prev, t, *a):
            return jnp.log(g('p', t)[ii(xs_prev[:, 0]), ii(xs[:, 0])])

        def twisting_logpdf(y, xs, t, **kw):
            return jnp.log(g('psi', t)[chk(y), ii(xs[:, 0])])

        def prop_sampler(key, xs, t, y, **kw):
            p = g('q', t)[chk(y), ii(xs[:, 0])]
            keys = jax.random.split(key, xs.shape[0])
            return jax.vmap(lambda kk, q: jax.random.choice(kk, S, (), p=q))(keys, p).astype(jnp.float64)[:, None]

        def prop_logpdf(xs, xs_prev, t, y, **kw):
            return jnp.log(g('q', t)[chk(y), ii(xs_prev[:, 0]), ii(xs[:, 0])])
        return twisted_smc(k, y, ts, init_sampler, transition_logpdf, twisting_logpdf, prop_sampler, prop_logpdf,
                           scheme('csmc.multinomial'), N)
    return f


def twisted_layout(K, p1, psi, p, q):
    """psi[k][u] for k=0..K; p[k][u], q[k][u]: P(u'=1 | u) used to move into time k (k=1..K)."""
    V = K + 1
    ps = np.empty((V, 2, S), object)
    P = np.empty((V, S, S), object)
    Q = np.empty((V, 2, S, S), object)
    for k in range(V):
        for u in range(S):
            ps[k, 0, u] = psi[k][u]
            ps[k, 1, u] = Fraction(3 + k + 2 * u, 4)
            for tab, src in ((P[k], p), (Q[k, 0], q)):
                x = src[k][u] if src[k] is not None else Fraction(2 + k + u, 17)
                tab[u, 1] = x
                tab[u, 0] = 1 - x
            z = Fraction(4 + k + 3 * u, 19)
            Q[k, 1, u, 1] = z
            Q[k, 1, u, 0] = 1 - z
    return dict(p0=np.array([1 - p1, p1], object), psi=ps, p=P, q=Q)


class JointModel:
    """K backward steps of a finite pair (u, v): r(u0,v0) * prod_k B_k(u_k | u_{k-1}, v_{k-1}) L_k(v_k | u_{k-1}, v_{k-1}).
    The forward sampler is the exact conditional law of the path given its end (u_K, v_K) = (x0, y0)."""

    def __init__(self, K, r, B, L):
        self.K, self.r, self.B, self.L = K, r, B, L     # r: [u][v] weights; B[k][u][v] = P(1|..); L likewise

    @staticmethod
    def b(p, x):
        if isinstance(p, tuple):        # (P(0), P(1))
            return p[x]
        return p if x == 1 else 1 - p

    def joint(self, us, vs):
        w = self.r[us[0]][vs[0]]
        for k in range(self.K):
            w = w * self.b(self.B[k][us[k]][vs[k]], us[k + 1]) * self.b(self.L[k][us[k]][vs[k]], vs[k + 1])
        return w

    def tables(self):
        import itertools
        K = self.K
        paths = list(itertools.product(range(2), repeat=K))
        # fwd[y0][x0] : weights over (u_0..u_{K-1}, v_0..v_{K-1})
        F = np.empty((2, 2, len(paths) ** 2), object)
        for y0 in range(2):
            for x0 in range(2):
                F[y0, x0] = [self.joint(u + (x0,), v + (y0,)) for u in paths for v in paths]
                if not any(hasattr(w, 't') for w in F[y0, x0]):
                    F[y0, x0] = F[y0, x0] / sum(F[y0, x0])
        P = np.array([[list(u), list(v)] for u in paths for v in paths], float).reshape(-1, 2, K)
        tr = np.empty((K, 2, 2, 2), object)
        li = np.empty((K, 2, 2, 2), object)
        for i in np.ndindex(K, 2, 2, 2):
            k, u, v, n = i
            tr[i] = self.b(self.B[k][u][v], n)
            li[i] = self.b(self.L[k][u][v], n)
        return dict(F=F, tr=tr, li=li), P

    def init_given_v0(self, v0):
        a, b = self.r[0][v0], self.r[1][v0]
        return b / (a + b)


def gibbs(K, N, P, explicit_backward, explicit_final):
    """gibbs_kernel on the finite joint model; y0 and x0 are (1,) arrays.  With the explicit final reference the
    hidden state handed over is a real number: its sign is the state."""
    from fbs.samplers.gibbs import gibbs_kernel

    def st(x):
        return ii(x > 0.5) if not explicit_final else ii(x > 0.)

    enc = (lambda u: u * 1.) if not explicit_final else (lambda u: 2. * u - 1.)

    def f(tb, x0, y0, bs, k):
        ts = jnp.arange(K + 1.)

        def fwd(key, x, y):
            w = tb['F'][ii(y[0]), st(x[0])]
            i = jax.random.choice(key, w.shape[0], (), p=w)
            u, v = jnp.asarray(P)[i]
            # forward time: x_0, ..., x_K = u_K, ..., u_0
            us = jnp.concatenate([x, enc(u[::-1])])
            vv = jnp.concatenate([y, v[::-1]])
            return jnp.stack([us, vv], axis=-1)

        def unpack(xy):
            return xy[..., :1], xy[..., 1:]

        def transition_sampler(us, v, t, key, **kw):
            p = tb['tr'][ii(t)][st(us[:, 0]), ii(v[0])]
            keys = jax.random.split(key, us.shape[0])
            return enc(jax.vmap(lambda kk, q: jax.random.choice(kk, S, (), p=q))(keys, p))[:, None]

        def transition_logpdf(u, us_prev, v, t, **kw):
            return jnp.log(tb['tr'][ii(t)][st(us_prev[:, 0]), ii(v[0]), st(u[0])])

        def lik(v, us_prev, v_prev, t, **kw):
            return jnp.log(tb['li'][ii(t)][st(us_prev[:, 0]), ii(v_prev[0]), ii(v[0])])
        return gibbs_kernel(k, x0, y0, jnp.zeros((K + 1, 1)), bs, ts, fwd, None, unpack, N, transition_sampler,
                            transition_logpdf, lik, marg_y=False, explicit_backward=explicit_backward,
                            explicit_final=explicit_final)
    return f


def random_joint(K, seed, sym_init=False):
    rs = np.random.RandomState(seed)
    pr = lambda: float(rs.uniform(.1, .9))
    r = [[pr(), pr()], [pr(), pr()]]
    if sym_init:
        r[1] = list(r[0])
    return JointModel(K, r, [[[pr(), pr()], [pr(), pr()]] for _ in range(K)],
                      [[[pr(), pr()], [pr(), pr()]] for _ in range(K)])
