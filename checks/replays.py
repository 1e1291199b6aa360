import itertools
import math
import numpy as np
import jax
import jax.numpy as jnp
from .replay import ours

M = 200000


def keys(n, seed=0):
    return jax.random.split(jax.random.PRNGKey(seed), n)


def test_weights(N, w):
    out = []
    if w is not None and all(np.isfinite(w)) and min(w) > -1e-9:
        out.append(np.maximum(np.asarray(w, float), 0))
    base = {1: [[1.]], 2: [[.5, .5], [.7, .3], [.2, .8]],
            3: [[.5, .25, .25], [.6, .3, .1], [.1, .3, .6], [.2, .45, .35], [1 / 3, 1 / 3, 1 / 3], [.05, .9, .05]],
            4: [[.4, .3, .2, .1], [.1, .2, .3, .4], [.05, .6, .15, .2]]}
    out += [np.array(b) for b in base.get(N, [])]
    return [b / b.sum() for b in out]


def _scheme(name):
    from fbs.samplers import resampling as R
    from fbs.samplers.csmc import resamplings as CR
    mod, f = name.split('.')
    if mod == 'csmc':
        return lambda w, k: getattr(CR, f)(k, w, 0, 0, False)
    return getattr(R, f)


def sig(mean, target, var, n):
    """deviation in standard errors, with a floor for float noise"""
    se = np.sqrt(np.maximum(var, 1e-6) / n)
    return np.abs(mean - target) / (se + 1e-7)


def resampling_unbiased(d):
    fn = _scheme(d['fn'])
    N = d['N']
    for w in test_weights(N, d.get('weights')):
        try:
            idx = np.asarray(jax.jit(jax.vmap(lambda k: fn(jnp.asarray(w), k)))(keys(M)))
        except Exception as e:
            ours(e)
            return True, f'{d["fn"]}(weights={w.tolist()}) raises {type(e).__name__}: {str(e)[:150]}'
        if idx.shape != (M, N):
            return True, f'{d["fn"]} returned shape {idx.shape[1:]} for {N} weights'
        if idx.min() < 0 or idx.max() >= N:
            return True, f'{d["fn"]}(weights={w.tolist()}) returned index {idx.min()}..{idx.max()}'
        cnt = np.stack([(idx == i).sum(1) for i in range(N)], 1)
        s = sig(cnt.mean(0), N * w, cnt.var(0), M)
        if s.max() > 7 and np.abs(cnt.mean(0) - N * w).max() > 2e-3:
            return True, (f'{d["fn"]}(weights={w.tolist()}): mean offspring {cnt.mean(0).round(4).tolist()} '
                          f'expected {(N * w).round(4).tolist()} ({s.max():.0f} standard errors, {M} draws)')
    return False, f'{d["fn"]}: mean offspring agrees'


def resampling_lowvar(d):
    fn = _scheme(d['fn'])
    N = d['N']
    for w in test_weights(N, d.get('weights')):
        try:
            idx = np.asarray(jax.jit(jax.vmap(lambda k: fn(jnp.asarray(w), k)))(keys(20000)))
        except Exception as e:
            ours(e)
            return True, f'{d["fn"]} raises {type(e).__name__}: {str(e)[:150]}'
        if idx.shape != (20000, N) or idx.min() < 0 or idx.max() >= N:
            return True, f'{d["fn"]}(weights={w.tolist()}) indices out of range'
        if (np.diff(idx, axis=1) < 0).any():
            return True, f'{d["fn"]}(weights={w.tolist()}): indices not ordered'
        C = np.cumsum(w)
        cum = np.stack([(idx <= i).sum(1) for i in range(N)], 1)
        e = np.abs(cum - N * C).max()
        if d['per']:
            cnt = np.stack([(idx == i).sum(1) for i in range(N)], 1)
            e = max(e, np.abs(cnt - N * w).max())
        if e > 1 + 1e-6:
            return True, f'{d["fn"]}(weights={w.tolist()}): offspring count off by {e:.3f}'
    return False, 'offspring counts within one'


def resampling_cond(d):
    from fbs.samplers.csmc import resamplings as CR
    fn = getattr(CR, d['fn'])
    N = d['N']
    ij = [(d['i'], d['j'])] if 'i' in d else []
    ij += [(i, j) for i in range(N) for j in range(N) if (i, j) not in ij]
    for w in test_weights(N, d.get('weights')):
        if w.min() <= 1e-6:
            continue
        wj = jnp.asarray(w)
        code = lambda a: (a * (N ** np.arange(N))).sum(-1)
        try:
            un = np.asarray(jax.jit(jax.vmap(lambda k: fn(k, wj, 0, 0, False)))(keys(M, 1)))
            p = np.zeros(N ** N)
            for s in range(N):
                np.add.at(p, code(np.roll(un, s, axis=1)), 1 / (N * M))
            for i, j in ij:
                co = np.asarray(jax.jit(jax.vmap(lambda k: fn(k, wj, i, j, True)))(keys(M, 2)))
                if (co[:, j] != i).any() or co.min() < 0 or co.max() >= N:
                    return True, f'conditional {d["fn"]}(i={i}, j={j}, weights={w.tolist()}) did not keep A[j]=i'
                q = np.bincount(code(co), minlength=N ** N) / M
                r = np.array([p[k] / w[i] if (k // N ** j) % N == i else 0. for k in range(N ** N)])
                se = np.sqrt(np.maximum(q * (1 - q), 1e-6) / M + np.maximum(r, 1e-6) / (w[i] * M))
                z = np.abs(q - r) / se
                if z.max() > 8 and np.abs(q - r).max() > 5e-3:
                    k = int(z.argmax())
                    return True, (f'conditional {d["fn"]}(i={i}, j={j}, weights={w.tolist()}): P={q[k]:.4f}, '
                                  f'conditional law of the unconditional scheme gives {r[k]:.4f}')
        except Exception as e:
            ours(e)
            return True, f'{d["fn"]} raises {type(e).__name__}: {str(e)[:150]}'
    return False, 'conditional law agrees'


# ------------------------------------------------------------------------------------------------ samplers
def models_for(d, K, n=3, g0=True):
    from . import fsm
    out = []
    m = d.get('model')
    if m:
        v = [m['p1']] + m['g0'] + sum(m['tr'], []) + sum(m['li'], [])
        if all(1e-3 < abs(x) < 1e3 for x in v) and all(.01 < x < .99 for x in [m['p1']] + sum(m['tr'], [])):
            out.append(fsm.Model(K, m['p1'], m['g0'], m['tr'], m['li']))
    return out + [fsm.random_model(K, s, g0) for s in range(n)]


def ftables(M):
    return {k: jnp.asarray(np.array(v, dtype=float)) for k, v in M.tables().items()}


def compare_law(freq, want, n, what):
    """freq, want: dict outcome -> probability."""
    for k in set(freq) | set(want):
        q, p = freq.get(k, 0.), want.get(k, 0.)
        se = np.sqrt(max(p * (1 - p), q * (1 - q), 1e-6) / n)
        if abs(q - p) > 7 * se and abs(q - p) > 1.5e-3:
            return f'{what}: outcome {k} has frequency {q:.4f}, expected {p:.4f} ({abs(q - p) / se:.0f} s.e., {n} runs)'
    return None


def weighted(vals, want, what):
    """mean of iid vals against want."""
    n = len(vals)
    m, se = vals.mean(), max(vals.std(), 1e-9) / np.sqrt(n)
    if not np.isfinite(m):
        return f'{what}: non-finite estimate'
    if abs(m - want) > 7 * se + 1e-9 and abs(m - want) > 2e-3 * abs(want):
        return f'{what}: mean estimate {m:.5f}, exact {want:.5f} ({abs(m - want) / se:.0f} s.e., {n} runs)'
    return None


def csmc_inv(d):
    from . import fsm
    K, N = d['K'], d['N']
    f = fsm.csmc(K, N, d['backward'], d['scheme'])
    n = 400000
    r = np.random.RandomState(5)
    trajs = list(itertools.product(range(2), repeat=K + 1))
    for M in models_for(d, K):
        p = np.array([M.target(t) for t in trajs], float)
        p /= p.sum()
        us = np.array(trajs, float)[r.choice(len(trajs), n, p=p)][..., None]
        bs = r.randint(0, N, (n, K + 1))
        tb = ftables(M)
        try:
            x, b = jax.jit(jax.vmap(lambda u, bb, k: f(tb, u, bb, k)))(jnp.asarray(us), jnp.asarray(bs), keys(n, 3))
        except Exception as e:
            ours(e)
            return True, f'csmc_kernel raises {type(e).__name__}: {str(e)[:150]}'
        x, b = np.asarray(x)[..., 0], np.asarray(b)
        if x.shape != (n, K + 1) or b.shape != (n, K + 1) or not np.isin(x, (0, 1)).all() \
                or b.min() < 0 or b.max() >= N:
            return True, f'csmc_kernel output malformed: {x.shape} {b.shape}, indices {b.min()}..{b.max()}'
        rows, cnt = np.unique(np.concatenate([x.astype(int), b], 1), axis=0, return_counts=True)
        freq = {(tuple(z[:K + 1]), tuple(z[K + 1:])): q / n for z, q in zip(rows.tolist(), cnt)}
        want = {(t, bb): p[i] / N ** (K + 1) for i, t in enumerate(trajs)
                for bb in itertools.product(range(N), repeat=K + 1)}
        t = compare_law(freq, want, n, 'after one step from the target')
        if t:
            return True, t
    return False, 'target law is preserved'


def force_move(d):
    from fbs.samplers.gibbs import force_move as fm
    N = d['N']
    for w in test_weights(N, d.get('weights')) + [np.random.RandomState(s).dirichlet(np.ones(N)) for s in range(3)]:
        if w.min() < 1e-3:
            continue
        wj = jnp.asarray(w)
        tot = np.zeros(N)
        for k in range(N):
            try:
                i, a = jax.jit(jax.vmap(lambda kk: fm(kk, wj, k)))(keys(M, 7 + k))
            except Exception as e:
                ours(e)
                return True, f'force_move raises {type(e).__name__}: {str(e)[:150]}'
            i, a = np.asarray(i), np.asarray(a)
            if i.min() < 0 or i.max() >= N:
                return True, 'index out of range'
            tot += w[k] * np.bincount(i, minlength=N) / M
            mv = (i != k).mean()
            if abs(mv - a.mean()) > 7 * np.sqrt(max(mv * (1 - mv), 1e-4) / M) + 1e-3:
                return True, (f'force_move(weights={w.round(4).tolist()}, k={k}): moves with probability {mv:.4f}, '
                              f'reports {a.mean():.4f}')
        if np.abs(tot - w).max() > 7 * np.sqrt(.25 / M) * 1.0:
            return True, f'force_move(weights={w.round(4).tolist()}): weights mapped to {tot.round(4).tolist()}'
    return False, 'forced move leaves the weights invariant'


def boot_unbiased(d):
    from . import fsm
    K, N = d['K'], d['N']
    for path in (False, True):
        f = fsm.bootstrap(K, N, d['scheme'], d['log'], not path)
        for Mo in models_for(d, K, g0=False):
            tb = ftables(Mo)
            try:
                us, nell = jax.jit(jax.vmap(lambda k: f(tb, k)))(keys(M, 11))
            except Exception as e:
                ours(e)
                return True, f'bootstrap_filter raises {type(e).__name__}: {str(e)[:150]}'
            us, z = np.asarray(us)[..., 0], np.exp(-np.asarray(nell))
            if us.shape != ((M, K + 1, N) if path else (M, N)):
                return True, f'bootstrap_filter(return_last={not path}) returned shape {us.shape[1:]}'
            if path:
                t = weighted(us[:, 0].mean(1), Mo.p1, 'first slice: P(u_0=1)')
                if t:
                    return True, t
                us = us[:, -1]
            for x in (0, 1):
                want = sum(Mo.target(t) for t in itertools.product(range(2), repeat=K + 1) if t[-1] == x)
                t = weighted(z * (us == x).mean(1), want, f'{d["scheme"]}: p(u_K={x}, v)')
                if t:
                    return True, t
    return False, 'estimates agree'


def pstep_unbiased(d):
    from . import fsm
    K, N = d['K'], d['N']
    f = fsm.pmcmc_step(K, N, d['scheme'])
    starts = [tuple(d['u0'])] if 'u0' in d else []
    starts += [t for t in itertools.product(range(2), repeat=N) if t not in starts]
    for Mo in models_for(d, K, g0=False):
        tb = ftables(Mo)
        for u0 in starts:
            try:
                us, ll = jax.jit(jax.vmap(lambda k: f(tb, jnp.asarray(u0, float)[:, None], k)))(keys(M, 13))
            except Exception as e:
                ours(e)
                return True, f'pmcmc_filter_step raises {type(e).__name__}: {str(e)[:150]}'
            us, z = np.asarray(us)[..., 0], np.exp(np.asarray(ll))
            for x in (0, 1):
                want = 0.
                for tr in itertools.product(range(2), repeat=K + 1):
                    if tr[-1] == x:
                        w = 1.
                        for k in range(K):
                            w *= Mo.T(k, tr[k], tr[k + 1]) * Mo.li[k][tr[k]]
                        want += w * u0.count(tr[0]) / N
                t = weighted(z * (us == x).mean(1), want, f'{d["scheme"]} from {u0}: p(u_K={x}, v)')
                if t:
                    return True, t
    return False, 'estimates agree'


def smoother(d):
    from . import fsm
    K, N = d['K'], d['N']
    f = fsm.smoother(K, N)
    for s in range(3):
        r = np.random.RandomState(s)
        D = np.exp(r.uniform(-1.5, 1.5, (K, N, N)))
        tab = jnp.asarray(np.array(fsm.smoother_layout(K, N, D), float))
        try:
            o = np.asarray(jax.jit(jax.vmap(lambda k: f(tab, k)))(keys(M, 17)))
        except Exception as e:
            ours(e)
            return True, f'bootstrap_backward_smoother raises {type(e).__name__}: {str(e)[:150]}'
        if o.shape != (M, K + 1, 1):
            return True, f'shape {o.shape[1:]}'
        rows, cnt = np.unique(o[..., 0].astype(int), axis=0, return_counts=True)
        freq = {tuple(z): q / M for z, q in zip(rows.tolist(), cnt)}
        want = {}
        for idx in itertools.product(range(N), repeat=K + 1):
            w = 1 / N
            for k in range(K):
                w *= D[k][idx[k]][idx[k + 1]] / D[k][:, idx[k + 1]].sum()
            want[tuple(k * N + i for k, i in enumerate(idx))] = w
        t = compare_law(freq, want, M, 'smoother')
        if t:
            return True, t
    return False, 'smoother law agrees'


def smoother_ffbs(d):
    from . import fsm
    from fbs.samplers.smc import bootstrap_backward_smoother
    for Mo in models_for(d, 1, g0=False):
        tb = ftables(Mo)
        cb = fsm.callbacks(tb)
        vs, ts = fsm.vs_ts(1)
        us = jnp.array([[[0.], [1.]], [[1.], [1.]]])
        o = np.asarray(jax.jit(jax.vmap(lambda k: bootstrap_backward_smoother(k, us, vs, ts, cb['trans_logpdf'])))(
            keys(M, 19)))
        p = (o[:, 0, 0] == 0).mean()
        a, b = Mo.T(0, 0, 1) * Mo.li[0][0], Mo.T(0, 1, 1) * Mo.li[0][1]
        if abs(p - a / (a + b)) > 0.02:
            return True, f'P(u_0 = 0 | u_1, v_1) drawn with probability {p:.3f}, exact {a / (a + b):.3f}'
    return False, 'agrees'


def pmcmc_chosen(d):
    from . import fsm
    K, N = d['K'], d['N']
    f = fsm.pmcmc(K, N, d['scheme'])
    for Mo in models_for(d, K, g0=False):
        tb = ftables(Mo)
        n = 1000000
        try:
            o = jax.jit(jax.vmap(lambda k: f(tb, jnp.array([9.]), -jnp.inf, 7. * jnp.ones((K + 1, 1)), k)))(
                keys(n, 23))
        except Exception as e:
            ours(e)
            return True, f'pmcmc_kernel raises {type(e).__name__}: {str(e)[:150]}'
        u, z = np.asarray(o[0])[:, 0], np.exp(np.asarray(o[1]))
        for x in (0, 1):
            want = sum(Mo.target(t) for t in itertools.product(range(2), repeat=K + 1) if t[-1] == x)
            t = weighted(z * (u == x), want, f'{d["scheme"]}, N={N}: weighted law of the chosen particle at {x}')
            if t:
                return True, t
    return False, 'chosen particle is properly weighted'


def pmcmc_accept(d):
    from . import fsm
    K, N = d['K'], d['N']
    f = fsm.pmcmc(K, N, d['scheme'])
    path = np.arange(K, -1, -1.)
    for Mo in models_for(d, K, g0=False):
        tb = ftables(Mo)
        for ll in (-1., -.3, 0., .4, 1.):
            n = 100000
            try:
                o = jax.jit(jax.vmap(lambda k: f(tb, jnp.array([9.]), ll, 7. * jnp.ones((K + 1, 1)), k)))(keys(n, 29))
            except Exception as e:
                ours(e)
                return True, f'pmcmc_kernel raises {type(e).__name__}: {str(e)[:150]}'
            u, l, ys = [np.asarray(z) for z in o[:3]]
            ap, fl, pl, cl = [np.asarray(z) for z in o[3]]
            prop = (u[:, 0] < 2) & (l == pl) & (ys[..., 0] == path).all(1)
            cur = (u[:, 0] == 9) & (l == ll) & (ys[..., 0] == 7).all(1)
            if not np.where(fl, prop, cur).all():
                return True, 'returned state mixes proposal and current state'
            want = np.minimum(1, np.exp(pl - ll))
            if np.abs(ap - want).max() > 1e-6 or np.abs(cl - ll).max() > 1e-9:
                return True, 'reported acceptance probability or log-likelihood is wrong'
            for v in np.unique(pl.round(9)):
                s = np.abs(pl - v) < 1e-8
                if s.sum() > 2000:
                    q, p = fl[s].mean(), want[s].mean()
                    if abs(q - p) > 7 * np.sqrt(max(p * (1 - p), 1e-6) / s.sum()) + 1e-4:
                        return True, f'log ratio {v - ll:.3f}: accepted with frequency {q:.4f}, expected {p:.4f}'
    return False, 'acceptance agrees'


def pcn(d):
    from fbs.samplers.smc import pcn_proposal
    for delta in (.1, .5, 2., 7.):
        m = jnp.array([1., -2.])
        n = 400000
        x = m + jax.random.normal(jax.random.PRNGKey(1), (n, 2))
        try:
            y = jax.jit(jax.vmap(lambda k, xx: pcn_proposal(k, delta, xx, m,
                                                            lambda kk: m + jax.random.normal(kk, (2,)))))(keys(n, 31), x)
        except Exception as e:
            ours(e)
            return True, f'pcn_proposal raises {type(e).__name__}: {str(e)[:150]}'
        y = np.asarray(y)
        if np.abs(y.mean(0) - np.asarray(m)).max() > 8 / np.sqrt(n) or np.abs(y.var(0) - 1).max() > 8 * np.sqrt(2 / n):
            return True, f'delta={delta}: N(m, 1) is mapped to mean {y.mean(0)}, variance {y.var(0)}'
    return False, 'N(m, C) preserved'


def twisted(d):
    from . import fsm, lawref
    K, N = d['K'], d['N']
    f = fsm.twisted(K, N)
    for s in range(3):
        r = np.random.RandomState(s)
        pr = lambda: float(r.uniform(.15, .85))
        md = dict(p1=pr(), psi=[[float(np.exp(r.uniform(-1, 1))), 1.] for _ in range(K + 1)],
                  p=[None] + [[pr(), pr()] for _ in range(K)], q=[None] + [[pr(), pr()] for _ in range(K)])
        tb = {k: jnp.asarray(np.array(v, float)) for k, v in fsm.twisted_layout(K, **md).items()}
        try:
            x, lw = jax.jit(jax.vmap(lambda k: f(tb, k)))(keys(M, 37))
        except Exception as e:
            ours(e)
            return True, f'twisted_smc raises {type(e).__name__}: {str(e)[:150]}'
        x, W = np.asarray(x)[..., 0].astype(int), np.exp(np.asarray(lw))
        if x.shape != (M, N) or W.shape != (M, N):
            return True, 'malformed output'
        want = lawref.twisted_law(K, N, md)
        for k, h in want.items():
            s_ = (x == np.array(k)).all(1)
            for i in range(N + 1):
                v = s_ * (1. if i == 0 else W[:, i - 1])
                t = weighted(v, float(h[i]), f'final particles {k}, ' + ('law' if i == 0 else f'weight {i - 1}'))
                if t:
                    return True, t
    return False, 'law agrees'


def gibbs(d):
    from . import fsm
    K, N, eb, ef = d['K'], d['N'], d['eb'], d['ef']
    y0 = d.get('y0', 1)
    n = 400000
    for s in range(-1 if 'joint' in d else 0, 4):
        jm = fsm.JointModel(K, *d['joint']) if s < 0 else fsm.random_joint(K, s, ef)
        tabs, Pth = jm.tables()
        tb = {k: jnp.asarray(np.array(v, float)) for k, v in tabs.items()}
        f = fsm.gibbs(K, N, Pth, eb, ef)
        paths = list(itertools.product(range(2), repeat=K))
        m = np.array([sum(jm.joint(u + (x,), v + (y0,)) for u in paths for v in paths) for x in (0, 1)])
        m /= m.sum()
        r = np.random.RandomState(101 + s)
        x0 = r.choice(2, n, p=m)
        bs = r.randint(0, N, (n, K + 1))
        e = x0 * 1. if not ef else 2. * x0 - 1
        try:
            x, us, b, acc = jax.jit(jax.vmap(lambda xx, bb, k: f(tb, xx, jnp.array([y0 * 1.]), bb, k)))(
                jnp.asarray(e)[:, None], jnp.asarray(bs), keys(n, 41))
        except Exception as e:
            ours(e)
            return True, f'gibbs_kernel raises {type(e).__name__}: {str(e)[:150]}'
        x, us = np.asarray(x)[:, 0], np.asarray(us)
        if (us[:, -1, 0] != x).any():
            return True, 'returned path does not end in the returned x0'
        if (np.asarray(acc) != (np.asarray(b) != bs)).any():
            return True, 'reported index changes are wrong'
        q = (x > (0. if ef else .5)).mean()
        if abs(q - m[1]) > 7 * np.sqrt(.25 / n):
            return True, f'P(x0 = 1) = {m[1]:.4f} before and {q:.4f} after one step ({n} runs, N={N})'
    return False, 'p(x0|y0) preserved'


# ---------------------------------------------------------------- SDE identities and laws
class NumEnv:
    sym = False

    @staticmethod
    def eig_hint(M, w, V):
        return M

    @staticmethod
    def expm_hint(M, X):
        return M

    def uf(self, name, nargs):
        import zlib
        rs = np.random.RandomState(zlib.crc32(name.encode()) % 2 ** 31)
        co = rs.uniform(.4, 1.3, nargs)
        ph, am = rs.uniform(0, 3), rs.uniform(.4, 1.)
        pos = name in ('sig', 'q')

        def f(*args):
            z = sum(c * jnp.asarray(a, float) for c, a in zip(co, args)) + ph
            v = am * jnp.sin(z)
            return v + 1.4 if pos else v
        return f


def _points(inputs, given, n=24, seed=3):
    rs = np.random.RandomState(seed)
    pts = []
    if given:
        pts.append({k: np.asarray(v, float) for k, v in given.items()})
    for i in range(n):
        sc = (.3, 1., 2.)[i % 3]
        pts.append({k: (rs.uniform(.2, 1.5, s) if kind == 'pos' else rs.normal(size=s)) * sc
                    for k, (kind, s) in inputs.items() if kind != 'key'})
    return pts


def ident(d):
    from . import sde_ids, nn_ids, exp_ids, img_ids, train_ids, tab_ids
    site, f, inputs = sde_ids.IDENTS[d['pid']][d['idx']]
    return _ident(site, f, inputs, d)


def _ident(site, f, inputs, d):
    env = NumEnv()
    worst = None
    for pt in _points(inputs, d.get('inputs')):
        args = {k: jnp.asarray(v) for k, v in pt.items()}
        for k, (kind, s) in inputs.items():
            if kind == 'key':
                args[k] = jax.random.PRNGKey(11)
        try:
            out = f(env, **args)
        except Exception as e:
            ours(e)
            return True, f'{site}: raises {type(e).__name__}: {str(e)[:200]} at { {k: v.tolist() for k, v in pt.items()} }'
        for lab, (x, y) in out.items():
            x, y = np.asarray(x, float), np.asarray(y, float)
            try:
                x, y = np.broadcast_arrays(x, y)
            except ValueError:
                return True, f'{site}: {lab}: shape {x.shape}, expected {y.shape}'
            if not np.all(np.isfinite(y)) or np.max(np.abs(y), initial=0) > 1e6:
                continue
            if not np.all(np.isfinite(x)):
                if np.max(np.abs(np.concatenate([v.ravel() for v in pt.values()]))) < 5:
                    return True, f'{site}: {lab} is not finite at { {k: v.tolist() for k, v in pt.items()} }'
                continue
            err = np.max(np.abs(x - y) / (1e-3 + np.abs(x) + np.abs(y)), initial=0)
            if err > 1e-6 and (worst is None or err > worst[0]):
                worst = (err, lab, pt, x, y)
    if worst:
        err, lab, pt, x, y = worst
        return True, (f'{site}: {lab}: {np.round(x, 6).ravel()[:8].tolist()} vs {np.round(y, 6).ravel()[:8].tolist()} at '
                      f'{ {k: np.round(v, 4).tolist() for k, v in pt.items()} }')
    return False, f'{site}: the identities hold numerically'


def law(d):
    from . import sde_ids, nn_ids, exp_ids, img_ids, train_ids, tab_ids
    site, f, ref, inputs = sde_ids.LAWS[d['pid']][d['idx']]
    env = NumEnv()
    n = 100000
    last = ''
    for pt in _points(inputs, d.get('inputs'), 6):
        if any(np.max(np.abs(v), initial=0) > 20 for v in pt.values()):
            continue
        args = {k: jnp.asarray(v) for k, v in pt.items()}
        where = {k: np.round(v, 4).tolist() for k, v in pt.items()}
        try:
            out = jax.jit(jax.vmap(lambda k: f(env, k, **args)))(keys(n, 5))
        except Exception as e:
            ours(e)
            return True, f'{site}: raises {type(e).__name__}: {str(e)[:200]} at {where}'
        rf = ref(env, **args)
        for lab, (m, C) in rf.items():
            m, C = np.asarray(m, float).ravel(), np.asarray(C, float)
            C = C.reshape(len(m), len(m))
            x = np.asarray(out[lab], float).reshape(n, -1)
            if x.shape[1] != len(m):
                return True, f'{site}: {lab}: {x.shape[1]} values, expected {len(m)}'
            if not (np.all(np.isfinite(m)) and np.all(np.isfinite(C))):
                continue
            if not np.all(np.isfinite(x)):
                return True, f'{site}: {lab} is not finite at {where}'
            v = np.diag(C)
            scale = np.sqrt(np.maximum(v, 0))
            se = scale / np.sqrt(n) + 1e-6 * (1 + np.abs(m))
            z = np.abs(x.mean(0) - m) / se
            if z.max() > 7:
                i = int(z.argmax())
                return True, (f'{site}: {lab}: mean of entry {i} is {x.mean(0)[i]:.5f}, exact {m[i]:.5f} '
                              f'({z[i]:.0f} standard errors) at {where}')
            c = np.cov(x.T).reshape(len(m), len(m))
            sc = np.sqrt((C ** 2 + np.outer(v, v)) / n) + 1e-6 * (1 + np.outer(scale, scale)) + 1e-9
            z = np.abs(c - C) / sc
            if z.max() > 8:
                i, j = np.unravel_index(z.argmax(), z.shape)
                return True, (f'{site}: {lab}: covariance of entries {i}, {j} is {c[i, j]:.5f}, exact {C[i, j]:.5f} '
                              f'({z[i, j]:.0f} standard errors) at {where}')
            last = f'{lab}: mean and covariance agree'
    for pt in list(_points(inputs, d.get('inputs'), 6))[:2]:
        bad = linear_law(site, f, ref, env, {k: jnp.asarray(v) for k, v in pt.items()})
        if bad:
            return True, bad
    return False, f'{site}: {last}'


def linear_law(site, f, ref, env, args):
    """the real code run on unit vectors in place of its normal draws: exact mean and covariance of an affine output"""
    table, state = {}, {'i': -1, 'z': None}
    real = jax.random.normal

    def host(key, shape):
        key = np.asarray(key)
        k = (key.tobytes(), shape)
        size = int(np.prod(shape))
        if k not in table:
            table[k] = sum(int(np.prod(s)) for _, s in table)
        o = table[k]
        z = np.zeros(size)
        if state['z'] is not None:
            z = state['z'][o:o + size]
        elif o <= state['i'] < o + size:
            z[state['i'] - o] = 1.
        return z.reshape(shape)

    def normal(key, shape=(), dtype=float):
        shape = tuple(int(i) for i in np.atleast_1d(shape)) if not isinstance(shape, tuple) else tuple(shape)
        return jax.pure_callback(lambda k: host(k, shape), jax.ShapeDtypeStruct(shape, jnp.float64), key)
    key = jax.random.PRNGKey(5)
    try:
        jax.random.normal = normal
        go = lambda: {k: np.asarray(v, float).ravel() for k, v in f(env, key, **args).items()}
        base = go()
        n = sum(int(np.prod(s)) for _, s in table)
        if n > 60:
            return None
        cols = []
        for i in range(n):
            state['i'] = i
            cols.append(go())
        z = np.random.RandomState(3).randn(n)
        state['z'] = z
        mixed = go()
    except Exception:
        return None
    finally:
        jax.random.normal = real
    for lab, (m, C) in ref(env, **args).items():
        m, C = np.asarray(m, float).ravel(), np.asarray(C, float)
        C = C.reshape(len(m), len(m))
        A = np.stack([c[lab] - base[lab] for c in cols], 1) if n else np.zeros((len(m), 0))
        if len(base[lab]) != len(m) or not np.all(np.isfinite(A)) or not np.all(np.isfinite(C)):
            continue
        if np.max(np.abs(base[lab] + A @ z - mixed[lab]), initial=0) > 1e-6 * (1 + np.max(np.abs(mixed[lab]), initial=0)):
            continue                                           # not affine: only the sampled comparison applies
        if np.max(np.abs(base[lab] - m), initial=0) > 1e-7 * (1 + np.max(np.abs(m), initial=0)):
            return f'{site}: {lab}: mean {base[lab].tolist()}, exact {m.tolist()} at { {k: v.tolist() for k, v in args.items()} }'
        if np.max(np.abs(A @ A.T - C), initial=0) > 1e-7 * (1 + np.max(np.abs(C), initial=0)):
            return (f'{site}: {lab}: covariance {np.round(A @ A.T, 7).tolist()} (draws replaced by unit vectors), exact '
                    f'{np.round(C, 7).tolist()} at { {k: v.tolist() for k, v in args.items()} }')
    return None


def loss(d):
    from . import losses_ids as L
    name = d['name']
    m, lt, sm, rt, n, K, shape, wr = L.CFG[name]
    env = NumEnv()
    inputs = L.inputs(name)
    M_ = 100000
    real_uniform = jax.random.uniform
    for pt in _points(inputs, d.get('inputs'), 5):
        if any(np.max(np.abs(v), initial=0) > 20 for v in pt.values()):
            continue
        args = {k: jnp.asarray(v) for k, v in pt.items()}
        where = {k: np.round(v, 4).tolist() for k, v in pt.items()}
        us = np.linspace(.3, .8, K - 1) if K > 1 else np.zeros(0)

        def fixed(key, shape=(), dtype=None, minval=0., maxval=1.):
            assert tuple(shape) == us.shape, f'{shape} uniform draws, expected {us.shape}'
            return minval + (maxval - minval) * jnp.asarray(us)
        try:
            if rt:
                jax.random.uniform = fixed
            x = np.asarray(jax.jit(jax.vmap(lambda k: L.call(env, name, k, **args)))(keys(M_, 5)))
        except Exception as e:
            ours(e)
            return True, f'{name}: raises {type(e).__name__}: {str(e)[:200]} at {where}'
        finally:
            jax.random.uniform = real_uniform
        if x.shape != (M_,):
            return True, f'{name}: loss has shape {x.shape[1:]}'
        ts = L.grid(env, name, us, **args)
        rv = float(L.ref(env, name, ts, **args))
        if not np.isfinite(rv):
            continue
        if not np.all(np.isfinite(x)):
            return True, f'{name}: loss is not finite at {where}'
        se = x.std() / np.sqrt(M_) + 1e-4 * abs(rv) + 1e-7
        z = abs(x.mean() - rv) / se
        if z > 7:
            return True, f'{name}: expected loss {x.mean():.5f}, objective {rv:.5f} ({z:.0f} standard errors) at {where}'
    if rt:
        rec = []
        base = L.nn

        def nn_rec(env_):
            f = base(env_)

            def g(x, t, param):
                jax.debug.callback(lambda t_: rec.append(np.asarray(t_).ravel()), t)
                return f(x, t, param)
            return g
        L.nn = nn_rec
        pt = _points(inputs, None, 1)[0]
        args = {k: jnp.asarray(v) for k, v in pt.items()}
        t0, T = (float(z) for z in L.horizon(env, name, args))
        fn = jax.jit(lambda k: L.call(env, name, k, **args))
        per = []
        for k in keys(1500, 9):
            rec.clear()
            fn(k).block_until_ready()
            jax.effects_barrier()
            per.append(np.sort(np.unique(np.concatenate(rec))))
        L.nn = base
        if any(len(q) != K for q in per):
            return True, f'{name}: {sorted({len(q) for q in per})} distinct training times, expected {K}'
        per = np.stack(per)
        if np.abs(per[:, -1] - T).max() > 1e-6:
            return True, f'{name}: last training time {per[0, -1]:.4f}, expected T={T:.4f}'
        q = np.sort(((per[:, :-1] - t0) / (T - t0)).ravel())
        D = np.abs(q - (np.arange(len(q)) + .5) / len(q)).max()
        if D > 3 / np.sqrt(len(q)):
            return True, f'{name}: training times are not uniform on [t0, T] (Kolmogorov distance {D:.3f})'
    return False, f'{name}: expected loss agrees'


def expectation(d):
    from . import sde_ids
    from . import exp_ids, train_ids
    site, f, ref, inputs = (exp_ids.MIXES if d.get('mix') else sde_ids.EXPECTS)[d['pid']][d['idx']]
    env = NumEnv()
    n = 100000
    for pt in _points(inputs, d.get('inputs'), 6):
        if any(np.max(np.abs(v), initial=0) > 20 for v in pt.values()):
            continue
        args = {k: jnp.asarray(v) for k, v in pt.items()}
        where = {k: np.round(v, 4).tolist() for k, v in pt.items()}
        try:
            out = jax.jit(jax.vmap(lambda k: f(env, k, **args)))(keys(n, 5))
        except Exception as e:
            ours(e)
            return True, f'{site}: raises {type(e).__name__}: {str(e)[:200]} at {where}'
        for lab, y in ref(env, **args).items():
            x, y = np.asarray(out[lab], float).reshape(n, -1), np.asarray(y, float).ravel()
            if x.shape[1] != len(y):
                return True, f'{site}: {lab}: {x.shape[1]} values, expected {len(y)}'
            if not np.all(np.isfinite(y)):
                continue
            if not np.all(np.isfinite(x)):
                return True, f'{site}: {lab} is not finite at {where}'
            se = x.std(0) / np.sqrt(n) + 1e-5 * np.abs(y) + 1e-8
            z = np.abs(x.mean(0) - y) / se
            if z.max() > 7:
                i = int(z.argmax())
                return True, (f'{site}: expected {lab} {x.mean(0)[i]:.6f}, exact {y[i]:.6f} ({z[i]:.0f} standard errors) '
                              f'at {where}')
    return False, f'{site}: expectations agree'


# ------------------------------------------------------------ data sets and layouts
def data(d):
    from fractions import Fraction
    from . import data_cases as D
    from symjax import zexec as Zx
    site, fn, inputs, prop, _ = D.CASES[d['pid']][d['idx']]
    D.TOL = Fraction(1, 10 ** 9)
    rs = np.random.RandomState(0)
    pts = []
    if d.get('inputs'):
        pts.append({k: np.asarray(v) for k, v in d['inputs'].items()})
    for k in range(3):
        pts.append({n: rs.rand(*s) * (1 if k == 0 else 3) - (0 if k == 0 else 1) for n, (_, s) in inputs.items()})
    for q, pt in enumerate(pts):
        args = {k: jnp.asarray(v, jnp.float64) for k, v in pt.items()}
        try:
            g = jax.jit(lambda k: fn(k, **args))
            outs = None
            ks = jax.random.split(jax.random.PRNGKey(11 + q), 1200 if q < 2 else 200)
            outs = [jax.tree_util.tree_map(np.asarray, g(k)) for k in ks]
        except Exception as e:
            ours(e)
            return True, f'{site}: raises {type(e).__name__}: {str(e)[:200]}'
        ins = {k: Zx.conc(np.asarray(v)) for k, v in args.items()}
        seen, can = set(), {}
        for k, out in zip(ks, outs):
            h = tuple(np.asarray(v).tobytes() for v in jax.tree_util.tree_leaves(out))
            if h in seen:
                continue
            seen.add(h)
            if len(seen) > 250:
                break
            for lab, c in prop({n: Zx.conc(v) for n, v in out.items()}, ins):
                if lab.startswith('can: '):
                    can[lab] = can.get(lab, False) or bool(c)
                elif not c:
                    return True, f'{site}: {lab}: fails for key {np.asarray(k).tolist()}'
        never = [lab for lab, v in can.items() if not v]
        if never and q and d.get('label') in never:
            return True, f'{site}: {d["label"][5:]}: never in {len(ks)} keys'
    return False, f'{site}: holds for the tried keys and values'


# ------------------------------------------------------------ embeddings, moving averages
def embedding(d):
    from fbs.nn import sinusoidal_embedding as emb
    n, mp = d['out_dim'], d['mp']
    for t in (d['t'], 0., .7, 3., 113., -2.5):
        try:
            x = np.asarray(emb(jnp.asarray(t, jnp.float64), out_dim=n, max_period=mp), float)
        except NotImplementedError:
            if n % 2:
                return False, 'odd dimension rejected'
            return True, f'out_dim={n} is rejected'
        except Exception as e:
            ours(e)
            return True, f'sinusoidal_embedding({t}, {n}, {mp}) raises {type(e).__name__}: {str(e)[:200]}'
        if n % 2:
            return True, f'out_dim={n} is accepted and gives shape {x.shape}'
        h = n // 2
        f = mp ** (-np.arange(h) / max(h - 1, 1))
        y = np.concatenate([np.sin(t * f), np.cos(t * f)])
        if x.shape != y.shape:
            return True, f'shape {x.shape}, expected {y.shape}'
        if not np.abs(x - y).max() < 1e-6:
            i = int(np.nanargmax(np.where(np.isnan(x), 9, np.abs(x - y))))
            return True, f'sinusoidal_embedding({t}, {n}, {mp})[{i}] = {x[i]:.6f}, expected {y[i]:.6f}'
    return False, 'embedding agrees'


def ema(d):
    import optax
    from fbs.nn.utils import make_optax_kernel
    _, k = make_optax_kernel(optax.sgd(.1), lambda q: jnp.sum(q), jit=True)
    a, b = np.array([1.3, -.4]), np.array([.2, 2.])
    pts = [(d['count'], d['start'], d['every'])] + [(n, s, e) for n in range(7) for s in range(6) for e in (1, 2, 3)]
    for n, s, e in pts:
        try:
            o = np.asarray(k(jnp.asarray(a), jnp.asarray(b), n, s, e, d['decay']))
        except Exception as ex:
            ours(ex)
            return True, f'ema_kernel raises {type(ex).__name__}: {str(ex)[:200]}'
        w = b if n < s else (d['decay'] * a + (1 - d['decay']) * b if n % e == 0 else a)
        if o.shape != w.shape or not np.abs(o - w).max() < 1e-6:
            return True, f'ema_kernel(count={n}, count_start={s}, count_every={e}, decay={d["decay"]}): {o.tolist()}, expected {w.tolist()}'
    return False, 'moving average agrees'


# ------------------------------------------------------------------ data loaders
def loader(d):
    import jax.numpy as jnp
    from . import loaders_cases as C
    site, cls, test, files, kw = C.CASES[d['name']]
    img = C.expect(cls, test, kw.get('resolution') or (64 if 'Celeb' in cls else None))

    def load(test, entry, seed=5):
        want, N, lo, n, shape = C.expect(cls, test, kw.get('resolution') or (64 if 'Celeb' in cls else None))
        arrs = {f: entry(f == want, s) for f, s in files.items()}
        with C.patched_load(arrs):
            x = C.build(cls, jax.random.PRNGKey(seed), test, kw)
        return x.n, np.asarray(x.xs), tuple(x.image_shape)

    def rows(ok, s):
        r = np.arange(s[0], dtype='float32').reshape((-1,) + (1,) * (len(s) - 1))
        return jnp.asarray(np.broadcast_to(r if ok else r + 100000, s))

    def pix(ok, s):
        r = np.arange(int(np.prod(s[1:])), dtype='float32').reshape(s[1:]) + 0.5
        return jnp.asarray(np.broadcast_to(r if ok else -r, s))
    want, N, lo, n, shape = img
    if d.get('split'):
        _, a, _ = load(False, rows)
        _, b, _ = load(True, rows)
        a, b = set(a[:, 0, 0, 0].tolist()), set(b[:, 0, 0, 0].tolist())
        bad = bool(a & b) or len(a) + len(b) != N
        return bad, f'{len(a)} training and {len(b)} test images of {N}, {len(a & b)} in common'
    m, xs, ish = load(test, rows)
    if m != n or xs.shape != (n, *shape) or ish != tuple(shape):
        return True, f'{xs.shape[0]} items of shape {xs.shape[1:]}, n = {m}, image_shape = {ish}'
    r = xs[:, 0, 0, 0]
    if not (xs == r[:, None, None, None]).all():
        return True, 'an item mixes images'
    if len(set(r.tolist())) != n or not set(r.tolist()) <= set(range(N)):
        return True, f'{len(set(r.tolist()))} different images of the file among {n} items'
    _, ps, _ = load(test, pix)
    if not (ps == np.arange(int(np.prod(shape))).reshape(shape) + 0.5).all():
        return True, 'pixels are not at their place or changed value'
    _, ys, _ = load(test, rows, 6)
    if (ys[:, 0, 0, 0] == r).all():
        return True, 'the order of the items does not depend on the key'
    return False, f'{n} items, distinct images of the file, pixels in place'


# ------------------------------------------------------------ networks
def net(d):
    from . import nets
    rng = np.random.default_rng(1)
    try:
        g, shapes = nets.pair(d['name'], d['which'])
        for trial in range(6):
            a = [jnp.asarray(rng.normal(size=s) * (.7 if i else 1.)) for i, s in enumerate(shapes)]
            got, want = (np.asarray(z, float) for z in jax.jit(g)(*a))
            if got.shape != want.shape:
                return True, f'shape {got.shape}, expected {want.shape}'
            e, m = np.abs(got - want), np.abs(want).max()
            if not np.isfinite(want).all():
                continue
            if not e.max() <= 2e-3 * (1 + m):
                i = np.unravel_index(int(np.nanargmax(np.where(np.isnan(e), np.inf, e))), e.shape)
                return True, f'{d["name"]}: value {got[i]:.6f} at {tuple(map(int, i))}, expected {want[i]:.6f}'
    except Exception as e:
        ours(e)
        return True, f'{d["name"]} raises {type(e).__name__}: {str(e)[:200]}'
    return False, 'the evaluations agree'
