"""Expected training losses: configurations, calls of the real code and closed-form references (jax, symbolic or float)."""
import jax
import jax.numpy as jnp
from .sde_ids import ConstNeg, ConstPos, LinLin, ExpLin, _path_ref, r, p

MODS = {'const': ConstNeg, 'const+': ConstPos, 'linlin': LinLin, 'exp': ExpLin}


def nn(env):
    A, B = env.uf('A', 1), env.uf('B', 1)

    def f(x, t, param):
        t = jnp.asarray(t)
        t = t.reshape(t.shape + (1,) * (x.ndim - t.ndim)) if t.ndim else t
        return param[0] * A(t) * x + B(t)
    return f


class Times:
    """t0 < T of the training horizon, on top of a model's own parameters."""


# name -> (model, loss_type, save_mem, random_times, n, nsteps, state shape, wrapper)
def _cfg():
    out = {}
    for m in ('const', 'const+', 'linlin', 'exp'):
        out[f'make_linear_sde_law_loss/{m}/score/fixed times'] = (m, 'score', False, False, 2, 2, (1,), 'linear')
    for m in ('const', 'linlin'):
        out[f'make_linear_sde_law_loss/{m}/score/random times'] = (m, 'score', False, True, 2, 2, (1,), 'linear')
        out[f'make_linear_sde_law_loss/{m}/score/save_mem/fixed times'] = (m, 'score', True, False, 2, 2, (1,), 'linear')
        out[f'make_linear_sde_law_loss/{m}/score/save_mem/random times'] = (m, 'score', True, True, 2, 2, (1,), 'linear')
        out[f'make_linear_sde_law_loss/{m}/ipf/fixed times'] = (m, 'ipf', False, False, 1, 2, (1,), 'linear')
        out[f'make_linear_sde_law_loss/{m}/ipf-score/fixed times'] = (m, 'ipf-score', False, False, 1, 2, (1,), 'linear')
    out['make_linear_sde_law_loss/const/score/three random times'] = ('const', 'score', False, True, 1, 3, (1,), 'linear')
    out['make_linear_sde_law_loss/const/score/save_mem/three random times'] = ('const', 'score', True, True, 3, 3, (1,), 'linear')
    out['make_linear_sde_law_loss/const/score/matrix state'] = ('const', 'score', False, False, 2, 2, (1, 2), 'linear')
    out['make_linear_sde_law_loss/const/score/save_mem/matrix state'] = ('const', 'score', True, False, 2, 2, (2, 1), 'linear')
    out['make_linear_sde_law_loss/const/ipf/random times'] = ('const', 'ipf', False, True, 2, 2, (1,), 'linear')
    out['make_linear_sde_law_loss/const/ipf-score/random times'] = ('const', 'ipf-score', False, True, 2, 2, (1,), 'linear')
    out['make_linear_sde_law_loss/const/ipf/vector state'] = ('const', 'ipf', False, False, 1, 1, (2,), 'linear')
    out['make_linear_sde_law_loss/const/ipf/save_mem'] = ('const', 'ipf', True, False, 2, 2, (1,), 'linear')
    out['make_linear_sde_law_loss/const/ipf-score/save_mem'] = ('const', 'ipf-score', True, False, 2, 2, (1,), 'linear')
    for m in ('const', 'const+'):
        out[f'make_ou_score_matching_loss/{m}/fixed times'] = (m, 'score', False, False, 2, 2, (2,), 'ou')
        out[f'make_ou_score_matching_loss/{m}/random times'] = (m, 'score', False, True, 2, 2, (1,), 'ou')
        out[f'make_ou_score_matching_loss/{m}/initial time 0'] = (m, 'score', False, False, 1, 2, (1,), 'ou0')
    return out


CFG = _cfg()


def inputs(name):
    m, lt, sm, rt, n, K, shape, wr = CFG[name]
    d = dict(MODS[m].inputs)
    if wr == 'ou0':
        d.pop('s')
    if rt:
        d.pop('d1'), d.pop('d2')
    return {**d, 'par': r(1), 'x0': r(n, *shape)}


def _mod(env, m, v, wr):
    if wr == 'ou0':
        v = {**v, 's': jnp.zeros(())}
    if 'd1' not in v:
        v = {**v, 'd1': jnp.asarray(.25), 'd2': jnp.asarray(.75)}      # horizon of length one
    mod = MODS[m](env, v)
    T = mod.times()
    return mod, T[0], T[2]


def call(env, name, key, par, x0, **v):
    m, lt, sm, rt, n, K, shape, wr = CFG[name]
    mod, t0, T = _mod(env, m, v, wr)
    if wr.startswith('ou'):
        from fbs.sdes import make_ou_score_matching_loss
        kw = {} if wr == 'ou0' else {'t0': t0}
        loss = make_ou_score_matching_loss(mod.A, mod.B, nn(env), T=T, nsteps=K, random_times=rt, **kw)
    else:
        from fbs.sdes import make_linear_sde_law_loss
        loss = make_linear_sde_law_loss(mod.real(), nn(env), t0=t0, T=T, nsteps=K, random_times=rt, loss_type=lt,
                                        save_mem=sm)
    return loss(par, key, x0)


def horizon(env, name, v):
    m, lt, sm, rt, n, K, shape, wr = CFG[name]
    mod, t0, T = _mod(env, m, {k: x for k, x in v.items() if k not in ('par', 'x0')}, wr)
    return t0, T


def grid(env, name, us, **v):
    """training times t_1..t_K (fixed grid, or from sorted uniforms us)"""
    m, lt, sm, rt, n, K, shape, wr = CFG[name]
    t0, T = horizon(env, name, v)
    if rt:
        return [t0 + u * (T - t0) for u in us] + [T]
    return [t0 + (T - t0) * (k + 1) / K for k in range(K)]


def ref(env, name, ts, par, x0, **v):
    """expected loss over the Gaussian draws, given the training times."""
    m, lt, sm, rt, n, K, shape, wr = CFG[name]
    mod, t0, T = _mod(env, m, v, wr)
    A, B = env.uf('A', 1), env.uf('B', 1)
    x0 = x0.reshape(n, -1)
    d = x0.shape[1]
    tot = 0.
    if sm:
        for i in range(n):
            F, Q = mod.F(ts[i], t0), mod.Q(ts[i], t0)
            a, b = par[0] * A(ts[i]), B(ts[i])
            tot = tot + jnp.sum(Q * (a * F * x0[i] + b) ** 2 + (a * Q + 1) ** 2)
        return tot / (n * d)
    for k in range(K):
        prev = ts[k - 1] if k else t0
        F, Q = mod.F(ts[k], t0), mod.Q(ts[k], t0)
        F1, Q1 = mod.F(ts[k], prev), mod.Q(ts[k], prev)
        Fp, Qp = (mod.F(prev, t0), mod.Q(prev, t0)) if k else (1., 0.)
        a, b = par[0] * A(ts[k]), B(ts[k])
        for i in range(n):
            if lt == 'score':
                tot = tot + jnp.sum(Q * (a * F * x0[i] + b) ** 2 + (a * Q + 1) ** 2)
            elif lt == 'ipf':
                # residual = c1 X_k + b - F1 X_{k-1},  X_k = F1 X_{k-1} + sqrt(Q1) z
                c1 = a - 1 + F1
                e = c1 * F1 - F1
                tot = tot + jnp.sum((e * Fp * x0[i] + b) ** 2 + e ** 2 * Qp + c1 ** 2 * Q1)
            else:
                tot = tot + jnp.sum((a * F * x0[i] + b) ** 2 + a ** 2 * Q + 2 * a + 1 / Q1)
    return tot / (n * K * d)
