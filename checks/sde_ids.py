"""Identities and Gaussian laws the SDE code has to satisfy, as functions usable both symbolically and numerically.

ident functions:  f(env, **inputs) -> {label: (lhs, rhs)}     both sides must agree for all inputs
law functions:    f(env, key, **inputs) -> {label: array}      random output of the real code
                  ref(env, **inputs) -> {label: (mean, cov)}    flattened mean vector and covariance matrix
Inputs are declared as name: (kind, shape) with kind 'real' or 'pos'.  env.uf(name, nargs) is an arbitrary function (an
uninterpreted symbol for the solver, a fixed smooth function in the replay)."""
import jax
import jax.numpy as jnp

IDENTS = {}
LAWS = {}


def ident(pid, site, neg=None, **inputs):
    def deco(f):
        IDENTS.setdefault(pid, []).append((site, f, inputs))
        return f
    return deco


def law(pid, site, ref, **inputs):
    def deco(f):
        LAWS.setdefault(pid, []).append((site, f, ref, inputs))
        return f
    return deco


R, POS = 'real', 'pos'


def r(*s): return (R, s)
def p(*s): return (POS, s)


# ---------------------------------------------------------------- models
# each: (name, inputs, make(inputs) -> real object, a(t), b2(t), F(t, s), Q(t, s))  the last four are the reference.
class Mod:
    def __init__(self, env, v):
        self.env, self.v = env, v

    def times(self):
        """four increasing times"""
        v = self.v
        return v['s'], v['s'] + v['d1'], v['s'] + v['d1'] + v['d2'], v['s'] + v['d1'] + v['d2'] + v['d3']


class ConstNeg(Mod):
    name = 'const(a<0)'
    inputs = {'al': p(), 'b': p(), 's': r(), 'd1': p(), 'd2': p(), 'd3': p()}
    sgn = -1

    def __init__(self, env, v):
        super().__init__(env, v)
        self.A, self.B = self.sgn * v['al'], v['b']

    def real(self):
        from fbs.sdes import StationaryConstLinearSDE
        return StationaryConstLinearSDE(self.A, self.B)

    def a(self, t): return self.A
    def b2(self, t): return self.B ** 2
    def F(self, t, s): return jnp.exp(self.A * (t - s))
    def Q(self, t, s): return self.B ** 2 / (2 * self.A) * (jnp.exp(2 * self.A * (t - s)) - 1)
    def stat(self): return self.B ** 2 / (-2 * self.A)


class ConstPos(ConstNeg):
    name = 'const(a>0)'
    sgn = 1


class LinLin(Mod):
    name = 'linlin'
    inputs = {'bmin': p(), 'bmax': p(), 's': r(), 'd0': p(), 'd1': p(), 'd2': p(), 'd3': p()}

    def __init__(self, env, v):
        super().__init__(env, v)
        self.t0 = v['s'] - v['d0']
        self.T = v['s'] + v['d1'] + v['d2'] + v['d3']

    def real(self):
        from fbs.sdes import StationaryLinLinearSDE
        return StationaryLinLinearSDE(self.v['bmin'], self.v['bmax'], self.t0, self.T)

    def beta(self, t):
        return self.v['bmin'] + (self.v['bmax'] - self.v['bmin']) * (t - self.t0) / (self.T - self.t0)

    def a(self, t): return -self.beta(t) / 2
    def b2(self, t): return self.beta(t)
    def I(self, t, s): return (t - s) * (self.beta(t) + self.beta(s)) / 2
    def F(self, t, s): return jnp.exp(-self.I(t, s) / 2)
    def Q(self, t, s): return 1 - jnp.exp(-self.I(t, s))
    def stat(self): return 1.


class ExpLin(Mod):
    name = 'exp'
    inputs = {'al': p(), 'b': p(), 'c': p(), 'z': r(), 's': r(), 'd1': p(), 'd2': p(), 'd3': p()}

    def real(self):
        from fbs.sdes import StationaryExpLinearSDE
        v = self.v
        return StationaryExpLinearSDE(self.A, v['b'], self.C, v['z'])

    sa, sc = -1, 1

    def __init__(self, env, v):
        super().__init__(env, v)
        self.A, self.C = self.sa * v['al'], self.sc * v['c']

    def a(self, t): return self.A * jnp.exp(self.C * (t - self.v['z']))
    def b2(self, t): return self.v['b'] ** 2 * jnp.exp(self.C * (t - self.v['z']))

    def I(self, t, s):
        v = self.v
        return -self.A / self.C * (jnp.exp(self.C * (t - v['z'])) - jnp.exp(self.C * (s - v['z'])))

    def F(self, t, s): return jnp.exp(-self.I(t, s))
    def Q(self, t, s): return self.stat() * (1 - jnp.exp(-2 * self.I(t, s)))
    def stat(self): return self.v['b'] ** 2 / (-2 * self.A)


class ExpNeg(ExpLin):
    name, sa, sc = 'exp(c<0)', -1, -1


class ExpPos(ExpLin):
    name, sa, sc = 'exp(a>0)', 1, 1


MODELS = [ConstNeg, ConstPos, LinLin, ExpLin, ExpNeg, ExpPos]


def _mk(m):
    from fbs.sdes import make_linear_sde
    return make_linear_sde(m.real())


# ---------------------------------------------------------------- D01 exact discretisation
def _d01(M):
    @ident('D01', f'make_linear_sde/{M.name}/discretise', **M.inputs)
    def f(env, **v):
        m = M(env, v)
        disc = _mk(m)[0]
        sde = m.real()
        s, t, u, _ = m.times()
        one = jnp.ones(())
        F, Q = disc(t, s)
        (dF, dQ) = jax.jvp(lambda x: disc(x, s), (t,), (one,))[1]
        F0, Q0 = disc(s, s)
        Fu, Qu = disc(u, t)
        Fus, Qus = disc(u, s)
        a = sde.drift(one, t)
        b = sde.dispersion(t) * one
        return {'F(s,s)=1': (F0, 1.), 'Q(s,s)=0': (Q0, 0.),
                'dF/dt=a(t)F': (dF, a * F), 'dQ/dt=2a(t)Q+b(t)^2': (dQ, 2 * a * Q + b ** 2),
                'F(u,t)F(t,s)=F(u,s)': (Fu * F, Fus), 'Q(u,s)=F(u,t)^2Q(t,s)+Q(u,t)': (Fu ** 2 * Q + Qu, Qus),
                'F exact': (F, m.F(t, s)), 'Q exact': (Q, m.Q(t, s))}

    @ident('D01', f'make_linear_sde/{M.name}/discretise/vector', **M.inputs)
    def g(env, **v):
        m = M(env, v)
        disc = _mk(m)[0]
        s, t, u, _ = m.times()
        F, Q = disc(jnp.stack([t, u]), jnp.stack([s, s]))
        F2, Q2 = disc(jnp.stack([t, u]), s)
        return {'F(vector)': (F, jnp.stack([m.F(t, s), m.F(u, s)])), 'Q(vector)': (Q, jnp.stack([m.Q(t, s), m.Q(u, s)])),
                'F(vector,scalar)': (F2, F), 'Q(vector,scalar)': (Q2, Q)}


for M in MODELS:
    _d01(M)


def _d01ou(sgn):
    @ident('D01', f'make_ou_sde/a{"<>"[sgn > 0]}0/discretise', al=p(), b=p(), d=p(), e=p())
    def f(env, al, b, d, e):
        from fbs.sdes import make_ou_sde
        a = sgn * al
        disc = make_ou_sde(a, b)[0]
        one = jnp.ones(())
        F, Q = disc(d)
        dF, dQ = jax.jvp(disc, (d,), (one,))[1]
        F0, Q0 = disc(jnp.zeros(()))
        Fe, Qe = disc(e)
        Fde, Qde = disc(d + e)
        return {'F(0)=1': (F0, 1.), 'Q(0)=0': (Q0, 0.), "F'=aF": (dF, a * F), "Q'=2aQ+b^2": (dQ, 2 * a * Q + b ** 2),
                'F(d+e)': (Fde, F * Fe), 'Q(d+e)': (Qde, Fe ** 2 * Q + Qe)}


_d01ou(-1)
_d01ou(1)


# ---------------------------------------------------------------- D02 model-level moments
def _d02(M):
    @ident('D02', f'{M.name}/moments', m0=r(2), **M.inputs)
    def f(env, m0, **v):
        m = M(env, v)
        sde = m.real()
        s, t, u, _ = m.times()
        out = {'drift': (sde.drift(m0, t), m.a(t) * m0), 'dispersion^2': (sde.dispersion(t) ** 2 * jnp.ones(()), m.b2(t))}
        if hasattr(sde, 'mean'):
            one = jnp.ones(())
            mt, dm = jax.jvp(lambda x: sde.mean(x, s, m0), (t,), (one,))
            vt, dv = jax.jvp(lambda x: sde.variance(x, s), (t,), (one,))
            out.update({'mean(s,s)': (sde.mean(s, s, m0), m0), 'variance(s,s)': (sde.variance(s, s), 0.),
                        'dmean/dt=drift(mean)': (dm, sde.drift(mt, t)),
                        'dvariance/dt': (dv, 2 * m.a(t) * vt + m.b2(t)),
                        'mean': (mt, m.F(t, s) * m0), 'variance': (vt, m.Q(t, s))})
        return out

    if M is not ConstPos:
        @ident('D02', f'{M.name}/stationary', **M.inputs)
        def g(env, **v):
            m = M(env, v)
            s, t, u, _ = m.times()
            F, Q = _mk(m)[0](t, s)
            sde = m.real()
            a = sde.drift(jnp.ones(()), t)
            return {'stationary variance is preserved': (F ** 2 * m.stat() + Q, m.stat() * jnp.ones(())),
                    'b^2=-2a*sigma^2': (sde.dispersion(t) ** 2 * jnp.ones(()), -2 * a * m.stat())}


for M in MODELS:
    _d02(M)


@ident('D02', 'linlin/beta', bmin=p(), bmax=p(), t0=r(), d1=p(), d2=p(), d3=p())
def _beta(env, bmin, bmax, t0, d1, d2, d3):
    from fbs.sdes import StationaryLinLinearSDE
    T = t0 + d1 + d2 + d3
    sde = StationaryLinLinearSDE(bmin, bmax, t0, T)
    t, u = t0 + d1, t0 + d1 + d2
    one = jnp.ones(())
    I, dI = jax.jvp(lambda x: sde.beta_integral(x, t), (u,), (one,))
    return {'beta(t0)=beta_min': (sde.beta(t0), bmin), 'beta(T)=beta_max': (sde.beta(T), bmax),
            'beta linear': (sde.beta(t) * (T - t0), bmin * (T - t) + bmax * (t - t0)),
            'd beta_integral/dt=beta': (dI, sde.beta(u)), 'beta_integral(t,t)=0': (sde.beta_integral(t, t), 0.),
            'beta_integral additive': (sde.beta_integral(T, u) + I, sde.beta_integral(T, t)),
            'beta_integral antisymmetric': (sde.beta_integral(t, u), -I)}


# ---------------------------------------------------------------- D03 conditional score
def _gauss_logpdf(x, m, v):
    return jnp.sum(-0.5 * (x - m) ** 2 / v - 0.5 * jnp.log(v))


def _d03(M):
    @ident('D03', f'make_linear_sde/{M.name}/cond_score', x=r(2), x0=r(2), **M.inputs)
    def f(env, x, x0, **v):
        m = M(env, v)
        score = _mk(m)[1]
        s, t, u, _ = m.times()
        F, Q = m.F(t, s), m.Q(t, s)
        ref = jax.grad(lambda z: -0.5 * jnp.sum((z - F * x0) ** 2) / Q)(x)
        xs, x0s, ts = jnp.stack([x, 2 * x]), jnp.stack([x0, -x0]), jnp.stack([t, u])
        vm = jax.vmap(score, in_axes=[0, 0, 0, None])(xs, ts, x0s, s)
        Fu, Qu = m.F(u, s), m.Q(u, s)
        return {'score': (score(x, t, x0, s), ref),
                'score (batched)': (vm, jnp.stack([-(x - F * x0) / Q, -(2 * x + Fu * x0) / Qu]))}


for M in MODELS:
    _d03(M)


def _d03ou(sgn):
    @ident('D03', f'make_ou_sde/a{"<>"[sgn > 0]}0/cond_score', al=p(), b=p(), t=p(), x=r(2), x0=r(2))
    def f(env, al, b, t, x, x0):
        from fbs.sdes import make_ou_sde
        a = sgn * al
        score = make_ou_sde(a, b)[1]
        F, Q = jnp.exp(a * t), b ** 2 / (2 * a) * (jnp.exp(2 * a * t) - 1)
        return {'score': (score(x, t, x0), jax.grad(lambda z: -0.5 * jnp.sum((z - F * x0) ** 2) / Q)(x))}


_d03ou(-1)
_d03ou(1)


# ---------------------------------------------------------------- D04 law of the forward simulation
def _path_ref(m, x0, ts, F, Q, indep=False, from_=None):
    """mean and covariance of (X(t_0), ..., X(t_n)) started at x0 at time from_ (default t_0)."""
    x = jnp.ravel(x0)
    d, n = x.shape[0], len(ts)
    s = ts[0] if from_ is None else from_
    mean = jnp.concatenate([F(t, s) * x for t in ts])
    cov = jnp.zeros((n, d, n, d))
    for j in range(n):
        for k in range(n):
            lo, hi = min(j, k), max(j, k)
            c = F(ts[hi], ts[lo]) * Q(ts[lo], s)
            if indep and j != k:
                continue
            for i in range(d):
                cov = cov.at[j, i, k, i].set(c)
    return mean, cov.reshape(n * d, n * d)


def _d04(M, shape, mode, nts=3):
    inputs = {**M.inputs, 'x0': r(*shape)}

    def tsel(m):
        T = m.times()
        return [T[0], T[1], T[2], T[3]][:nts]

    def ref(env, **v):
        m = M(env, v)
        ts = tsel(m)
        if mode == 'path':
            return {'path': _path_ref(m, v['x0'], ts, m.F, m.Q)}
        if mode == 'marginal':
            return {'marginals': _path_ref(m, v['x0'], ts, m.F, m.Q, indep=True)}
        if mode in ('marginal-t0', 'marginal-zero'):          # a stationary model: only time differences matter
            return {'marginals': _path_ref(m, v['x0'], ts[1:], m.F, m.Q, indep=True, from_=ts[0])}
        return {'marginal': _path_ref(m, v['x0'], ts[1:2], m.F, m.Q, from_=ts[0])}

    @law('D04', f'make_linear_sde/{M.name}/simulate_cond_forward/{mode}/x0{shape}/{nts} times', ref, **inputs)
    def f(env, key, **v):
        m = M(env, v)
        sim = _mk(m)[2]
        ts = tsel(m)
        x0 = v['x0']
        if mode == 'path':
            return {'path': sim(key, x0, jnp.stack(ts))}
        if mode == 'marginal':
            return {'marginals': sim(key, x0, jnp.stack(ts), keep_path=False)}
        if mode == 'marginal-zero':
            return {'marginals': sim(key, x0, jnp.stack(ts[1:]) - ts[0], t0=0., keep_path=False)}
        if mode == 'marginal-t0':
            return {'marginals': sim(key, x0, jnp.stack(ts[1:]), t0=ts[0], keep_path=False)}
        return {'marginal': sim(key, x0, ts[1], t0=ts[0], keep_path=False)}


for M in MODELS:
    _d04(M, (2,), 'path')
    _d04(M, (2,), 'marginal')
    _d04(M, (2,), 'marginal-t0')
    _d04(M, (2,), 'scalar-t0')
_d04(ConstNeg, (2,), 'marginal-zero')
_d04(ConstNeg, (2, 2), 'path')
_d04(LinLin, (2, 2), 'marginal-t0')
_d04(ConstNeg, (1,), 'path', 4)


def _d04ou(sgn, keep):
    inputs = {'al': p(), 'b': p(), 's': p(), 'd1': p(), 'd2': p(), 'x0': r(2)}

    def fq(al, b):
        a = sgn * al
        return (lambda t, s: jnp.exp(a * (t - s))), (lambda t, s: b ** 2 / (2 * a) * (jnp.exp(2 * a * (t - s)) - 1))

    def ref(env, al, b, s, d1, d2, x0):
        F, Q = fq(al, b)
        ts = [s, s + d1, s + d1 + d2]
        return {'path': _path_ref(None, x0, ts, F, Q) if keep
                else _path_ref(None, x0, ts, F, Q, indep=True, from_=jnp.zeros(()))}

    @law('D04', f'make_ou_sde/a{"<>"[sgn > 0]}0/simulate_cond_forward/keep_path={keep}', ref, **inputs)
    def f(env, key, al, b, s, d1, d2, x0):
        from fbs.sdes import make_ou_sde
        sim = make_ou_sde(sgn * al, b)[2]
        return {'path': sim(key, x0, jnp.stack([s, s + d1, s + d1 + d2]), keep_path=keep)}


for sgn in (-1, 1):
    for keep in (True, False):
        _d04ou(sgn, keep)


# ---------------------------------------------------------------- D05 Doob bridge drift
def _d05(M):
    @ident('D05', f'{M.name}/bridge_drift', x=r(2), y=r(2), **M.inputs)
    def f(env, x, y, **v):
        m = M(env, v)
        sde = m.real()
        s, t, u, T = m.times()
        F, Q = m.F(T, t), m.Q(T, t)
        got = sde.bridge_drift(x, t, y, T)
        ref = m.a(t) * x + m.b2(t) * F * (y - F * x) / Q
        # T need not be the end of the model's own time horizon
        F2, Q2 = m.F(u, t), m.Q(u, t)
        return {'drift+b^2 grad log h': (got, ref),
                'other horizon': (sde.bridge_drift(x, t, y, u), m.a(t) * x + m.b2(t) * F2 * (y - F2 * x) / Q2)}

    @ident('D05', f'{M.name}/bridge_drift/pinned process', x=r(1), y=r(1), **M.inputs)
    def g(env, x, y, **v):
        m = M(env, v)
        sde = m.real()
        s, t, u, T = m.times()
        one = jnp.ones(())

        def mean(t):
            return m.F(t, s) * x + m.F(T, t) * m.Q(t, s) / m.Q(T, s) * (y - m.F(T, s) * x)

        def var(t):
            return m.Q(t, s) - m.F(T, t) ** 2 * m.Q(t, s) ** 2 / m.Q(T, s)

        mt, dm = jax.jvp(mean, (t,), (one,))
        vt, dv = jax.jvp(var, (t,), (one,))
        dr, slope = jax.jvp(lambda z: sde.bridge_drift(z, t, y, T), (mt,), (jnp.ones(1),))
        return {'mean of the pinned process follows the drift': (dm, dr),
                'variance of the pinned process': (dv, 2 * slope[0] * vt + m.b2(t))}


for M in (ConstNeg, ConstPos, LinLin):
    _d05(M)


# ---------------------------------------------------------------- D06 Euler-Maruyama
def em_ref(x0, times, f, sig, m, keep=True):
    """law of the Euler-Maruyama recursion: f(t) = (A matrix, c vector) affine drift, sig(t) scalar. -> path law"""
    d = x0.shape[0]
    mean, blocks = [x0], [[jnp.zeros((d, d))]]
    cur_m, cur_c = x0, jnp.zeros((d, d))
    cross = [jnp.zeros((d, d))]           # Cov(X_now, X_j)
    for k in range(len(times) - 1):
        t, t2 = times[k], times[k + 1]
        dt = jnp.abs(t2 - t) / m
        for j in range(m):
            tj = t + j * (t2 - t) / m
            A, c = f(tj)
            G = jnp.eye(d) + A * dt
            cur_m = G @ cur_m + c * dt
            cur_c = G @ cur_c @ G.T + sig(tj) ** 2 * dt * jnp.eye(d)
            cross = [G @ z for z in cross]
        mean.append(cur_m)
        for j, z in enumerate(cross):
            blocks[j].append(z.T)
        blocks.append([z for z in cross] + [cur_c])
        cross.append(cur_c)
    if not keep:
        return cur_m, cur_c
    n = len(times)
    full = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            full[i][j] = blocks[i][j]
    return jnp.concatenate(mean), jnp.block(full)


def _affine(env, tag=''):
    """drift(x, t) = A(t) x + c(t) in two dimensions with arbitrary entries."""
    es = [env.uf(f'A{tag}{i}{j}', 1) for i in range(2) for j in range(2)]
    cs = [env.uf(f'c{tag}{i}', 1) for i in range(2)]

    def mats(t):
        return jnp.stack([e(t) for e in es]).reshape(2, 2), jnp.stack([c(t) for c in cs])

    def drift(x, t):
        A, c = mats(t)
        return A @ x + c
    return mats, drift


def _diag_affine(env, tag=''):
    al, be = env.uf('al' + tag, 1), env.uf('be' + tag, 1)

    def mats(t):
        return al(t) * jnp.eye(2), jnp.stack([be(t), be(t)])
    return mats, lambda x, t: al(t) * x + be(t)


def _grid(s, ds, down):
    ts = [s]
    for d in ds:
        ts.append(ts[-1] - d if down else ts[-1] + d)
    return ts


def _d06(n, msub, down, path, full=True):
    inputs = {'x0': r(2), 's': r(), **{f'd{i}': p() for i in range(n)}}
    mk = _affine if full else _diag_affine

    def ref(env, x0, s, **ds):
        mats, drift = mk(env)
        return {'X': em_ref(x0, _grid(s, ds.values(), down), mats, env.uf('sig', 1), msub, keep=path)}

    @law('D06', f'euler_maruyama/{"decreasing" if down else "increasing"}/{n} steps/{msub} sub-steps/path={path}', ref,
         **inputs)
    def f(env, key, x0, s, **ds):
        from fbs.sdes import euler_maruyama
        mats, drift = mk(env)
        kw = {} if msub == 1 else {'integration_nsteps': msub}
        return {'X': euler_maruyama(key, x0, jnp.stack(_grid(s, ds.values(), down)), drift, env.uf('sig', 1),
                                    return_path=path, **kw)}


for down in (False, True):
    _d06(2, 1, down, True)
    _d06(1, 3, down, False)
    _d06(2, 2, down, True, full=False)
_d06(3, 1, False, False)


def _d06m():
    """matrix-valued state, arbitrary nonlinear drift: the first step and the path/terminal agreement"""
    def ref(env, x0, s, d0):
        f, sig = env.uf('f', 2), env.uf('sig', 1)
        m = x0 + f(x0, s) * d0
        n = x0.size
        return {'X1': (jnp.ravel(m), sig(s) ** 2 * d0 * jnp.eye(n))}

    @law('D06', 'euler_maruyama/nonlinear/matrix state', ref, x0=r(2, 2), s=r(), d0=p())
    def f(env, key, x0, s, d0):
        from fbs.sdes import euler_maruyama
        return {'X1': euler_maruyama(key, x0, jnp.stack([s, s + d0]), env.uf('f', 2), env.uf('sig', 1))}

    @ident('D06', 'euler_maruyama/path and terminal value agree', key=('key', ()), x0=r(2), s=r(), d0=p(), d1=p())
    def g(env, key, x0, s, d0, d1):
        from fbs.sdes import euler_maruyama
        f, sig = env.uf('f', 2), env.uf('sig', 1)
        ts = jnp.stack([s, s + d0, s + d0 + d1])
        a = euler_maruyama(key, x0, ts, f, sig, integration_nsteps=2, return_path=True)
        b = euler_maruyama(key, x0, ts, f, sig, integration_nsteps=2)
        return {'terminal': (a[-1], b), 'starts at x0': (a[0], x0)}


_d06m()


# ---------------------------------------------------------------- D07 time reversal
def _d07(n, msub, zero=True):
    inputs = {'u0': r(2), **({} if zero else {'s': r()}), **{f'd{i}': p() for i in range(n)}}

    def ref(env, u0, s=None, **ds):
        ts = _grid(jnp.zeros(()) if s is None else s, ds.values(), False)
        T = ts[-1]
        mats, _ = _diag_affine(env)
        smats, _ = _diag_affine(env, 's')
        sig = env.uf('sig', 1)

        def rev(t):
            A, c = mats(T - t)
            S, e = smats(T - t)
            q = sig(T - t) ** 2
            return -A + q * S, -c + q * e
        return {'X': em_ref(u0, ts, rev, lambda t: sig(T - t), msub, keep=False)}

    @law('D07', f'reverse_simulator/{n} steps/{msub} sub-steps/{"" if zero else "start at any time"}', ref, **inputs)
    def f(env, key, u0, s=None, **ds):
        from fbs.sdes import reverse_simulator
        ts = _grid(jnp.zeros(()) if s is None else s, ds.values(), False)
        _, drift = _diag_affine(env)
        _, score = _diag_affine(env, 's')
        return {'X': reverse_simulator(key, u0, jnp.stack(ts), score, drift, env.uf('sig', 1), integration_nsteps=msub)}


_d07(2, 1)
_d07(1, 2)
_d07(1, 1, False)
_d07(3, 1)


def _d07x():
    """nonlinear score and drift, one step"""
    def ref(env, u0, d0):
        f, s, sig = env.uf('f', 2), env.uf('score', 2), env.uf('sig', 1)
        m = u0 + (-f(u0, d0) + sig(d0) ** 2 * s(u0, d0)) * d0
        return {'X': (m, sig(d0) ** 2 * d0 * jnp.eye(2))}

    @law('D07', 'reverse_simulator/nonlinear', ref, u0=r(2), d0=p())
    def f(env, key, u0, d0):
        from fbs.sdes import reverse_simulator
        return {'X': reverse_simulator(key, u0, jnp.stack([jnp.zeros(()), d0]), env.uf('score', 2), env.uf('f', 2),
                                       env.uf('sig', 1))}


_d07x()


# ---------------------------------------------------------------- D08 bridge simulation, discrete-time simulation
def _d08(M, n, msub, replace):
    inputs = {**M.inputs, 'x0': r(1), 'y': r(1)}

    def times(m):
        T = m.times()
        return [T[0], T[1], T[2], T[3]] if n == 3 else [T[0], T[1], T[3]] if n == 2 else [T[0], T[3]]

    def ref(env, x0, y, **v):
        m = M(env, v)
        ts = times(m)
        T = ts[-1]

        def f(t):
            F, Q = m.F(T, t), m.Q(T, t)
            g = m.b2(t) * F / Q
            return (m.a(t) - g * F) * jnp.eye(1), g * y
        mean, cov = em_ref(x0, ts, f, lambda t: jnp.sqrt(m.b2(t)), msub)
        if replace:
            mean = mean.at[-1].set(y[0])
            cov = cov.at[-1, :].set(0.).at[:, -1].set(0.)
        return {'path': (mean, cov)}

    @law('D08', f'doob_bridge_simulator/{M.name}/{n} steps/{msub} sub-steps/replace={replace}', ref, **inputs)
    def f(env, key, x0, y, **v):
        from fbs.sdes.simulators import doob_bridge_simulator
        m = M(env, v)
        return {'path': doob_bridge_simulator(key, m.real(), x0, y, jnp.stack(times(m)), integration_nsteps=msub,
                                              replace=replace)}


_d08(ConstNeg, 2, 1, False)
_d08(ConstNeg, 2, 1, True)
_d08(ConstNeg, 1, 2, False)
_d08(LinLin, 2, 1, False)
_d08(LinLin, 1, 1, True)


def _d08d(n):
    inputs = {'x0': r(2), 's': r(), **{f'd{i}': p() for i in range(n)}}

    def ref(env, x0, s, **ds):
        es = [env.uf(f'G{i}{j}', 2) for i in range(2) for j in range(2)]
        cs = [env.uf(f'h{i}', 2) for i in range(2)]
        q = env.uf('q', 2)
        ts = _grid(s, ds.values(), False)
        m, C = x0, jnp.zeros((2, 2))
        for t, u in zip(ts, ts[1:]):
            G = jnp.stack([e(u, t) for e in es]).reshape(2, 2)
            m = G @ m + jnp.stack([c(u, t) for c in cs])
            C = G @ C @ G.T + q(u, t) ** 2 * jnp.eye(2)
        return {'X': (m, C)}

    @law('D08', f'discrete_time_simulator/{n} steps', ref, **inputs)
    def f(env, key, x0, s, **ds):
        from fbs.sdes import discrete_time_simulator
        es = [env.uf(f'G{i}{j}', 2) for i in range(2) for j in range(2)]
        cs = [env.uf(f'h{i}', 2) for i in range(2)]
        ts = _grid(s, ds.values(), False)

        def fn(x, u, t):
            return jnp.stack([e(u, t) for e in es]).reshape(2, 2) @ x + jnp.stack([c(u, t) for c in cs])
        return {'X': discrete_time_simulator(key, x0, jnp.stack(ts), fn, env.uf('q', 2))}


_d08d(1)
_d08d(3)


# ---------------------------------------------------------------- D10 IPF losses
EXPECTS = {}
THOROUGH_FROM = {}     # first index of the thorough-only identities


def expects(pid, site, ref, **inputs):
    def deco(f):
        EXPECTS.setdefault(pid, []).append((site, f, ref, inputs))
        return f
    return deco


def _param_affine(env, tag):
    a, b = env.uf('a' + tag, 1), env.uf('b' + tag, 1)
    return lambda x, t, par: par[0] * a(t) * x + par[1] * b(t)


def _d10(fname, n, K, d, down):
    inputs = {'x0': r(n, d), 'par': r(2), 'sp': r(2), 's': r(), **{f'd{i}': p() for i in range(K)}}

    def ref(env, x0, par, sp, s, **ds):
        ts = _grid(s, ds.values(), down)
        ag, bg = env.uf('ag', 1), env.uf('bg', 1)
        af, bf = env.uf('af', 1), env.uf('bf', 1)
        sig = env.uf('sig', 1)
        m, v, tot = x0, jnp.zeros(()), 0.
        for k in range(K):
            dt = ds[f'd{k}']
            F, c = sp[0] * af(ts[k]), sp[1] * bf(ts[k])
            G, e = par[0] * ag(ts[k + 1]), par[1] * bg(ts[k + 1])
            # residual g(x')dt - (x + f(x)dt - x' - f(x')dt),  x' = x + f(x)dt + sig sqrt(dt) z
            cx = G * dt + 1 + F * dt           # coefficient of x'
            m1 = m + (F * m + c) * dt
            w = 1 + F * dt
            # in terms of x and z
            rx = cx * w - w
            rm = rx * m + cx * c * dt + e * dt
            tot = tot + jnp.mean(rm ** 2 + rx ** 2 * v + cx ** 2 * sig(ts[k]) ** 2 * dt)
            v = w ** 2 * v + sig(ts[k]) ** 2 * dt
            m = m1
        return {'loss': tot / K}

    @expects('D10', f'{fname}/{"decreasing" if down else "increasing"}/{K} steps/{n} samples of dimension {d}', ref,
             **inputs)
    def f(env, key, x0, par, sp, s, **ds):
        from fbs.dsb import base
        ts = jnp.stack(_grid(s, ds.values(), down))
        return {'loss': getattr(base, fname)(key, par, sp, x0, ts, _param_affine(env, 'g'), _param_affine(env, 'f'),
                                             env.uf('sig', 1))}


for fname in ('ipf_loss_cont', 'ipf_loss_cont_v'):
    _d10(fname, 2, 2, 1, False)
    _d10(fname, 1, 2, 2, True)
    _d10(fname, 1, 1, 1, True)


def _d10d(n, K, d):
    inputs = {'x0': r(n, d), 'par': r(2), 'sp': r(2), 'ks': r(K + 1), 'gam': p(K)}

    def ref(env, x0, par, sp, ks, gam):
        ag, bg = env.uf('ag', 1), env.uf('bg', 1)
        af, bf = env.uf('af', 1), env.uf('bf', 1)
        m, v, tot = x0, jnp.zeros(()), 0.
        for k in range(K):
            F, c = sp[0] * af(ks[k]), sp[1] * bf(ks[k])
            G, e = par[0] * ag(ks[k + 1]), par[1] * bg(ks[k + 1])
            # B(x') - (x' + F(x) - F(x')),  x' = F(x) + sqrt(gamma) z
            cx = G - 1 + F
            rx = cx * F - F
            rm = rx * m + cx * c + e
            tot = tot + jnp.mean(rm ** 2 + rx ** 2 * v + cx ** 2 * gam[k])
            v = F ** 2 * v + gam[k]
            m = F * m + c
        return {'loss': tot}

    @expects('D10', f'ipf_loss_disc/{K} steps/{n} samples of dimension {d}', ref, **inputs)
    def f(env, key, x0, par, sp, ks, gam):
        from fbs.dsb.base import ipf_loss_disc
        return {'loss': ipf_loss_disc(par, sp, x0, ks, gam, _param_affine(env, 'g'), _param_affine(env, 'f'), key)}


_d10d(2, 2, 1)
_d10d(1, 2, 2)


def _d10v(n, K, shape, down):
    @ident('D10', f'ipf_loss_cont_v=ipf_loss_cont/{"decreasing" if down else "increasing"}/{K} steps/{n}x{shape}',
           key=('key', ()), x0=r(n, *shape), par=r(1), sp=r(1), s=r(), **{f'd{i}': p() for i in range(K)})
    def f(env, key, x0, par, sp, s, **ds):
        from fbs.dsb import base
        g, h, sig = env.uf('g', 3), env.uf('h', 3), env.uf('sig', 1)
        ts = jnp.stack(_grid(s, ds.values(), down))
        a = (key, par, sp, x0, ts, lambda x, t, q: g(x, t, q[0]), lambda x, t, q: h(x, t, q[0]), sig)
        return {'same value': (base.ipf_loss_cont_v(*a), base.ipf_loss_cont(*a))}


_d10v(2, 2, (1,), False)
_d10v(1, 2, (2,), True)
_d10v(2, 1, (1, 2), False)


# ---------------------------------------------------------------- D11 Gaussian Schroedinger bridge
def rot(q):
    c, s = (1 - q ** 2) / (1 + q ** 2), 2 * q / (1 + q ** 2)
    return jnp.stack([jnp.stack([c, -s]), jnp.stack([s, c])])


def spec(w, V):
    return V @ jnp.diag(w) @ V.T


def _sb_conditions(env, m0, c0, m1, c1, sig, t):
    from fbs.sdes import make_gaussian_bw_sb
    mean, cov, drift = make_gaussian_bw_sb(m0, c0, m1, c1, sig)
    d = m0.shape[0]
    one, zero = jnp.ones(()), jnp.zeros(())
    I = jnp.eye(d)

    def affine(t):
        k = drift(jnp.zeros(d), t)
        return k, jnp.stack([drift(I[i], t) - k for i in range(d)], axis=1)
    mt, dm = jax.jvp(mean, (t,), (one,))
    ct, dc = jax.jvp(cov, (t,), (one,))
    k, J = affine(t)
    k0, J0 = affine(zero)
    return {'mean(0)': (mean(zero), m0), 'mean(1)': (mean(one), m1), 'cov(0)': (cov(zero), c0), 'cov(1)': (cov(one), c1),
            'mean follows the drift': (dm, J @ mt + k),
            'covariance follows the drift': (dc, J @ ct + ct @ J.T + sig ** 2 * I),
            'drift is a gradient': (J, J.T),
            'drift is affine': (drift(m0, t), J @ m0 + k),
            'Brownian reference: J(t)(I+tJ(0))=J(0)': (J @ (I + t * J0), J0),
            'Brownian reference: (I+tJ(0))k(t)=k(0)': ((I + t * J0) @ k, k0)}


@ident('D11', 'make_gaussian_bw_sb/d=1', m0=r(1), m1=r(1), a=p(), e=p(), sig=p(), t=p(), rest=p())
def _sb1(env, m0, m1, a, e, sig, t, rest):
    # cov0 = a^2, D = sig^2 + e, cov1 = (D^2 - sig^4) / (4 a^2);  0 < t < 1
    D = sig ** 2 + e
    return _sb_conditions(env, m0, jnp.reshape(a ** 2, (1, 1)), m1,
                          jnp.reshape((D ** 2 - sig ** 4) / (4 * a ** 2), (1, 1)), sig, t / (t + rest))


def _sb2(site, v0, v1, **extra):
    @ident('D11', site, m0=r(2), m1=r(2), a=p(2), e=p(2), sig=p(), t=p(), rest=p(), **extra)
    def f(env, m0, m1, a, e, sig, t, rest, **q):
        V0, V1 = v0(q), v1(q)
        D = sig ** 2 + e
        c0 = env.eig_hint(spec(a ** 2, V0), a ** 2, V0)
        Si = spec(1 / a, V0)
        D2 = env.eig_hint(spec(D ** 2, V1), D ** 2, V1)
        c1 = Si @ (D2 - sig ** 4 * jnp.eye(2)) @ Si / 4
        return _sb_conditions(env, m0, c0, m1, c1, sig, t / (t + rest))


def _rq(x):
    return lambda q: rot(jnp.asarray(x))


_sb2('make_gaussian_bw_sb/d=2/diagonal', lambda q: jnp.eye(2), lambda q: jnp.eye(2))
_sb2('make_gaussian_bw_sb/d=2/commuting (rotation 1/2)', _rq(.5), _rq(.5))
_sb2('make_gaussian_bw_sb/d=2/diagonal cov0 (rotation 1/2)', lambda q: jnp.eye(2), _rq(.5))
_sb2('make_gaussian_bw_sb/d=2/rotations 1/2, -1/4', _rq(.5), _rq(-.25))
THOROUGH_FROM['D11'] = len(IDENTS['D11'])
_sb2('make_gaussian_bw_sb/d=2/rotations -3/4, 1/8', _rq(-.75), _rq(.125))
_sb2('make_gaussian_bw_sb/d=2/commuting', lambda q: rot(q['q']), lambda q: rot(q['q']), q=r())
_sb2('make_gaussian_bw_sb/d=2/diagonal cov0', lambda q: jnp.eye(2), lambda q: rot(q['q']), q=r())


# ---------------------------------------------------------------- D12 Gaussian utilities
def _spd(w, l):
    """2 x 2 positive definite from its Cholesky factor"""
    L = jnp.stack([jnp.stack([w[0], jnp.zeros(())]), jnp.stack([l, w[1]])])
    return L @ L.T


@ident('D12', 'kl/d=1', m0=r(1), m1=r(1), a=p(), b=p())
def _kl1(env, m0, m1, a, b):
    from fbs.utils import kl
    v, w = a ** 2, b ** 2
    return {'kl': (kl(m0, v.reshape(1, 1), m1, w.reshape(1, 1)),
                   0.5 * (v / w - 1 + (m1[0] - m0[0]) ** 2 / w + jnp.log(w) - jnp.log(v))),
            'kl(p,p)=0': (kl(m0, v.reshape(1, 1), m0, v.reshape(1, 1)), 0.)}


@ident('D12', 'kl/d=2', m0=r(2), m1=r(2), a=p(2), b=p(2), la=r(), lb=r())
def _kl2(env, m0, m1, a, b, la, lb):
    from fbs.utils import kl
    c0, c1 = _spd(a, la), _spd(b, lb)
    det1 = b[0] ** 2 * b[1] ** 2
    inv1 = jnp.stack([jnp.stack([c1[1, 1], -c1[0, 1]]), jnp.stack([-c1[1, 0], c1[0, 0]])]) / det1
    dm = m1 - m0
    return {'kl': (kl(m0, c0, m1, c1),
                   0.5 * (jnp.trace(inv1 @ c0) - 2 + dm @ inv1 @ dm
                          + 2 * jnp.log(b[0]) + 2 * jnp.log(b[1]) - 2 * jnp.log(a[0]) - 2 * jnp.log(a[1]))),
            'kl(p,p)=0': (kl(m0, c0, m0, c0), 0.)}


def _sqrt_conditions(env, M, tag=''):
    from fbs.utils import sqrtm
    R = sqrtm(M)
    return {f'R R = M{tag}': (R @ R, M), f'R symmetric{tag}': (R, R.T)}


@ident('D12', 'sqrtm/d=1', a=p())
def _sq1(env, a):
    from fbs.utils import sqrtm
    M = (a ** 2).reshape(1, 1)
    return {**_sqrt_conditions(env, M), 'positive root': (sqrtm(M), a.reshape(1, 1))}


@ident('D12', 'sqrtm/d=2', a=p(2), q=r())
def _sq2(env, a, q):
    from fbs.utils import sqrtm
    V = rot(q)
    M = env.eig_hint(spec(a ** 2, V), a ** 2, V)
    return {**_sqrt_conditions(env, M), 'positive root': (sqrtm(M), spec(a, V))}


@ident('D12', 'sqrtm/d=3', a=p(3), q=r())
def _sq3(env, a, q):
    from fbs.utils import sqrtm
    V = jnp.eye(3).at[1:, 1:].set(rot(q))
    M = env.eig_hint(spec(a ** 2, V), a ** 2, V)
    return {**_sqrt_conditions(env, M), 'positive root': (sqrtm(M), spec(a, V))}


@ident('D12', 'bures_dist/d=1', m0=r(1), m1=r(1), a=p(), b=p())
def _bu1(env, m0, m1, a, b):
    from fbs.utils import bures_dist
    return {'W2^2': (bures_dist(m0, (a ** 2).reshape(1, 1), m1, (b ** 2).reshape(1, 1)),
                     (m0[0] - m1[0]) ** 2 + (a - b) ** 2)}


def _bures(site, v0, v1, **extra):
    @ident('D12', site, m0=r(2), m1=r(2), a=p(2), e=p(2), **extra)
    def f(env, m0, m1, a, e, **q):
        from fbs.utils import bures_dist
        V0, V1 = v0(q), v1(q)
        S, Si = spec(a, V0), spec(1 / a, V0)
        c0 = env.eig_hint(spec(a ** 2, V0), a ** 2, V0)
        D2 = env.eig_hint(spec(e ** 2, V1), e ** 2, V1)
        c1 = Si @ D2 @ Si
        return {'W2^2': (bures_dist(m0, c0, m1, c1),
                         jnp.sum((m0 - m1) ** 2) + jnp.trace(c0) + jnp.trace(c1) - 2 * jnp.sum(e))}


_bures('bures_dist/d=2/diagonal', lambda q: jnp.eye(2), lambda q: jnp.eye(2))
_bures('bures_dist/d=2/general', lambda q: rot(q['q']), lambda q: rot(q['h']), q=r(), h=r())


@ident('D12', 'discretise_lti_sde/d=1', al=r(), g=p(), dt=p())
def _lti1(env, al, g, dt):
    from fbs.utils import discretise_lti_sde
    F, Q = discretise_lti_sde(al.reshape(1, 1), g.reshape(1, 1), dt)
    return {'F': (F, jnp.exp(al * dt).reshape(1, 1)),
            'Q': (2 * al * Q, (g * (jnp.exp(2 * al * dt) - 1)).reshape(1, 1))}


@ident('D12', 'discretise_lti_sde/d=2', lam=r(2), u=r(), g=p(2), l=r(), dt=p())
def _lti2(env, lam, u, g, l, dt):
    from fbs.utils import discretise_lti_sde
    # A = [[lam0, u], [0, lam1]] (upper triangular), B = I-free full gamma
    A = jnp.stack([jnp.stack([lam[0], u]), jnp.stack([jnp.zeros(()), lam[1]])])
    gam = _spd(g, l)
    e0, e1 = jnp.exp(lam[0] * dt), jnp.exp(lam[1] * dt)
    F = jnp.stack([jnp.stack([e0, u * (e0 - e1) / (lam[0] - lam[1])]), jnp.stack([jnp.zeros(()), e1])])
    # Lyapunov: A Q + Q A^T = F gam F^T - gam, solved from the bottom right
    R = F @ gam @ F.T - gam
    q11 = R[1, 1] / (2 * lam[1])
    q01 = (R[0, 1] - u * q11) / (lam[0] + lam[1])
    q00 = (R[0, 0] - 2 * u * q01) / (2 * lam[0])
    Q = jnp.stack([jnp.stack([q00, q01]), jnp.stack([q01, q11])])
    Fi = jnp.stack([jnp.stack([F[1, 1], -F[0, 1]]), jnp.stack([-F[1, 0], F[0, 0]])]) / (e0 * e1)
    Z = jnp.zeros((2, 2))
    A = env.expm_hint(A * dt, F) / dt
    A = A + 0 * env.expm_hint(jnp.block([[A, gam], [Z, -A.T]]) * dt, jnp.block([[F, Q @ Fi.T], [Z, Fi.T]]))[:2, :2]
    A = A + 0 * env.expm_hint(jnp.block([[-A, gam], [Z, A.T]]) * dt, jnp.block([[Fi, Fi @ Q], [Z, F.T]]))[:2, :2]
    F_, Q_ = discretise_lti_sde(A, gam, dt)
    return {'F': (F_, F), 'Q': (Q_, Q)}
