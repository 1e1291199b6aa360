"""S04-S16: conditional SMC, particle filters, smoothers, pMCMC, Gibbs."""
import itertools
from symjax.harness import *
from symjax.smt import prove_zero, prove, Ctx
from symjax.interp import hygiene
from . import common, fsm, lawref
from .models import *

LAW_STUB = ('uniform draws: independent U[0,1); choice(p): index i with probability p_i / sum(p); '
            'distinct split keys give independent streams')
FSM_STUB = ('user callbacks: a two-state hidden process with arbitrary symbolic transition, measurement and initial '
            'tables, indexed by every argument of the documented signature')


def keys_ok(c, it, site, kind, data):
    """independence contract: the law computation is valid only if no key is consumed twice."""
    bad = hygiene(it.used)
    c.vcs += 1
    if bad:
        c.candidate(site + '/keys', f'random key {bad[0][0]} is {bad[0][1]}: draws are not independent', kind, data)


def accumulate(tot, k, w):
    tot[k] = E.add(tot.get(k, 0), w)


# ------------------------------------------------------------------------------------------------ cSMC (S04, S05)
def csmc_inv(c, site, K, N, backward, scheme):
    T = Tables(K)
    data = {'K': K, 'N': N, 'backward': backward, 'scheme': scheme}
    t = Traced(fsm.csmc(K, N, backward, scheme), T.arrays(), arr([0] * (K + 1), (K + 1, 1)),
               arr([0] * (K + 1), (K + 1,), 'int64'), key())
    c.encoded(f'csmc_kernel(backward={backward}, {scheme})', t.neqns)
    tabs = t.flat[:4]

    def body(ctx):
        tot = {}
        its = []
        for traj in itertools.product(range(2), repeat=K + 1):
            for bs in itertools.product(range(N), repeat=K + 1):
                it = Interp(ctx)
                res = it.run(t.closed, tabs + [arr(list(traj), (K + 1, 1)), arr(list(bs), (K + 1,), 'int64'), key()])
                c.states = max(c.states, it.peak)
                its.append(it)
                pi = T.target(traj)
                for w, (x, b) in res:
                    accumulate(tot, (tuple(x.a.ravel()), tuple(b.a.ravel())), E.mul(pi, w))
        return tot, its[-1]

    for ctx, (tot, it) in regions(T.assume, body):
        c.regions += 1
        c.vacuous += feasible(ctx)[0] == 'sat'
        keys_ok(c, it, site, 'csmc_inv', data)
        for x in itertools.product(range(2), repeat=K + 1):
            for b in itertools.product(range(N), repeat=K + 1):
                c.vcs += 1
                d = E.simp(E.sub(tot.pop((x, b), 0), T.target(x)))
                ok, m = prove_zero(ctx, d)
                if not ok:
                    c.candidate(site, f'probability of trajectory {x} with indices {b} after one step is not its '
                                'target probability', 'csmc_inv', {**data, 'model': T.worst(ctx, d, m)})
        for k, w in tot.items():
            c.vcs += 1
            ok, m = prove_zero(ctx, w)
            if not ok:
                c.candidate(site + '/range', f'output {k} outside the state space', 'csmc_inv',
                            {**data, 'model': T.numeric(m)})
        c.sample(f'{site}: Sum pi K - pi = 0 for {2 ** (K + 1) * N ** (K + 1)} outcomes, {it.neqns} equations/run')


def s_csmc(c, backward):
    c.stub(LAW_STUB)
    c.stub(FSM_STUB)
    c.assume('target: joint law of the path under (initial law x initial weight x transitions x measurement '
             'factors); reference indices uniform; all table entries positive')
    cfg = [(1, 2, 'multinomial'), (1, 2, 'killing'), (1, 3, 'multinomial'), (1, 3, 'killing'), (2, 2, 'multinomial')]
    if not backward or not c.quick:
        cfg.append((2, 2, 'killing'))
    if not c.quick:
        cfg.append((3, 2, 'multinomial'))
    c.bound('steps K and particles N in ' + ', '.join(f'(K={k},N={n},{s})' for k, n, s in cfg))
    c.bound('two hidden states; all positive tables, all reference trajectories and indices')
    c.jobs([(f'csmc/{"backward" if backward else "scan"}/{s}/K={K}/N={N}',
             lambda cc, K=K, N=N, s=s: csmc_inv(cc, f'csmc/{"backward" if backward else "scan"}/{s}/K={K}/N={N}',
                                                K, N, backward, s),
             'csmc_inv', {'K': K, 'N': N, 'backward': backward, 'scheme': s})
            for K, N, s in sorted(cfg, key=lambda z: -z[0] * 10 - z[1])])
    return c.finish(explanation='One step of the real cSMC kernel executed symbolically for every reference path and '
                    'index vector; the solver shows sum_ref target(ref) K(ref -> out) = target(out) as an identity of '
                    'rational functions in all table entries.')


def s04(c):
    return s_csmc(c, False)


def s05(c):
    return s_csmc(c, True)


# ------------------------------------------------------------------------------------------------ forced move (S06)
def s06(c):
    c.stub(LAW_STUB)
    Ns = (2, 3) if c.quick else (2, 3, 4)
    c.bound(f'number of weights in {Ns}; all normalised weight vectors with entries in (0, 1 - 1e-12), every reference')
    c.jobs([(f'force_move/N={N}', lambda cc, N=N: forced(cc, f'force_move/N={N}', N), 'force_move', {'N': N})
            for N in Ns])
    return c.finish(explanation='Exact transition law of the real forced move; the solver shows sum_k w_k P(k->l) = '
                    'w_l, l in range, and that the reported probability equals the probability of leaving k.')


def forced(c, site, N):
    from fbs.samplers.gibbs import force_move
    from .resampling import simplex, wmodel
    ws, full, _ = simplex(N)
    eps = Fraction(1, 10 ** 12)
    assum = [('>', w) for w in full] + [('<', E.sub(w, 1 - eps)) for w in full]
    if N == 2:
        assum += [('>', E.sub(w, eps)) for w in full]
    t = Traced(lambda w, k, i: force_move(k, w, i), arr(full), key(), arr(0, (), 'int64'))
    c.encoded('force_move', t.neqns)

    def body(ctx):
        out = []
        for k in range(N):
            it = Interp(ctx)
            out.append((it.run(t.closed, [t.flat[0], t.flat[1], arr(k, (), 'int64')]), it))
        return out
    for ctx, runs in regions(assum, body):
        c.regions += 1
        c.vacuous += feasible(ctx)[0] == 'sat'
        tot = [0] * N
        keys_ok(c, runs[0][1], site, 'force_move', {'N': N})
        for k, (res, it) in enumerate(runs):
            c.states = max(c.states, it.peak)
            stay = 0
            al = 0
            for w, (i, a) in res:
                i = i.a.reshape(-1)[0]
                if not 0 <= i < N:
                    c.candidate(site, f'index {i} out of range', 'force_move', {'N': N})
                    continue
                tot[i] = E.add(tot[i], E.mul(full[k], w))
                if i == k:
                    stay = E.add(stay, w)
                al = E.add(al, E.mul(w, a.a.reshape(-1)[0]))
            c.vcs += 1
            ok, m = prove_zero(ctx, E.simp(E.sub(E.add(stay, al), 1)))
            if not ok:
                c.candidate(site + '/alpha', 'reported acceptance probability is not the probability of moving',
                            'force_move', {'N': N, 'weights': wmodel(m, ws)})
        for l in range(N):
            c.vcs += 1
            ok, m = prove_zero(ctx, E.simp(E.sub(tot[l], full[l])))
            if not ok:
                c.candidate(site, f'weights are not invariant (index {l})', 'force_move',
                            {'N': N, 'weights': wmodel(m, ws)})


# ------------------------------------------------------------------------------------------------ filters (S07, S09)
SCHEMES = ('resampling.systematic', 'resampling.stratified', 'resampling.killing', 'csmc.multinomial')


def s07(c):
    c.stub(LAW_STUB)
    c.stub(FSM_STUB)
    cfg = [(K, N, s, log) for s in SCHEMES for K, N in ((1, 2), (1, 3)) for log in (True,)]
    cfg += [(2, 2, s, True) for s in SCHEMES]
    cfg += [(1, 2, 'csmc.multinomial', False)]
    if not c.quick:
        cfg += [(2, 3, 'csmc.multinomial', True), (3, 2, 'csmc.multinomial', True), (2, 2, 'csmc.multinomial', False)]
    c.bound('steps K, particles N, scheme: ' + '; '.join(f'K={k} N={n} {s}{"" if l else " log=False"}'
                                                         for k, n, s, l in cfg))
    c.jobs([(f'bootstrap_filter/{s}/K={K}/N={N}/log={l}',
             lambda cc, a=(K, N, s, l): boot(cc, 'bootstrap_filter/%s/K=%d/N=%d/log=%s' % (a[2], a[0], a[1], a[3]), *a),
             'boot_unbiased', {'K': K, 'N': N, 'scheme': s, 'log': l})
            for K, N, s, l in sorted(cfg, key=lambda z: -z[0] * 10 - z[1])])
    return c.finish(explanation='Exact joint law of (final particles, likelihood estimate) of the real filter; the '
                    'solver shows E[Zhat] = p(v_1..K) and E[Zhat * mean_i 1{u_i = x}] = p(x, v_1..K) as rational '
                    'identities in all model tables.')


def enumerate_marg(T, K):
    """unnormalised filter at K: sum over paths with final state x (no g0)."""
    out = {}
    for tr in itertools.product(range(2), repeat=K + 1):
        accumulate(out, tr[-1], T.target(tr))
    return out


def boot(c, site, K, N, sch, log):
    T = Tables(K, g0=False)
    data = {'K': K, 'N': N, 'scheme': sch, 'log': log}
    t = Traced(fsm.bootstrap(K, N, sch, log, True), T.arrays(), key())
    tp = Traced(fsm.bootstrap(K, N, sch, log, False), T.arrays(), key())
    c.encoded(f'bootstrap_filter({sch}, log={log})', t.neqns)

    def body(ctx):
        it = Interp(ctx)
        a = it.run(t.closed, t.flat)
        it2 = Interp(ctx)
        return a, it2.run(tp.closed, tp.flat), it
    want = enumerate_marg(T, K)
    for ctx, (res, resp, it) in regions(T.assume, body):
        c.regions += 1
        c.states = max(c.states, it.peak)
        c.vacuous += feasible(ctx)[0] == 'sat'
        keys_ok(c, it, site, 'boot_unbiased', data)
        for lab, rs, last in (('', res, lambda o: o.a), ('/path', resp, lambda o: o.a[-1])):
            est = {0: 0, 1: 0}
            first = {0: 0, 1: 0}
            for w, (us, nell) in rs:
                z = E.mul(w, E.exp(E.neg(nell.a.reshape(-1)[0])))
                x = list(last(us).ravel())
                if len(x) != N or any(v not in (0, 1) for v in x):
                    raise SymError(f'unexpected filter output {x}')
                for u in (0, 1):
                    est[u] = E.add(est[u], E.mul(z, Fraction(x.count(u), N)))
                if lab:
                    if us.a.shape[0] != K + 1:
                        raise SymError(f'path output has {us.a.shape[0]} slices, expected {K + 1}')
                    x0 = list(us.a[0].ravel())
                    for u in (0, 1):
                        first[u] = E.add(first[u], E.mul(w, Fraction(x0.count(u), N)))
            for u in (0, 1):
                c.vcs += 1
                d = E.simp(E.sub(est[u], want[u]))
                ok, m = prove_zero(ctx, d)
                if not ok:
                    c.candidate(site + lab, f'estimate of p(u_K = {u}, v_1..K) is biased', 'boot_unbiased',
                                {**data, 'model': T.worst(ctx, d, m), 'path': bool(lab)})
                if lab:
                    c.vcs += 1
                    ok, m = prove_zero(ctx, E.simp(E.sub(first[u], T.P0(u))))
                    if not ok:
                        c.candidate(site + '/first', 'first slice of the path is not the initial law',
                                    'boot_unbiased', {**data, 'model': T.numeric(m), 'path': True})


def s09(c):
    c.stub(LAW_STUB)
    c.stub(FSM_STUB)
    cfg = [(1, 2, s) for s in SCHEMES] + [(1, 3, s) for s in SCHEMES] + [(2, 2, s) for s in SCHEMES]
    if not c.quick:
        cfg += [(2, 3, 'csmc.multinomial'), (3, 2, 'csmc.multinomial')]
    c.bound('steps K, particles N, scheme: ' + '; '.join(f'K={k} N={n} {s}' for k, n, s in cfg) +
            '; every vector of starting particles')
    c.jobs([(f'pmcmc_filter_step/{s}/K={K}/N={N}',
             lambda cc, a=(K, N, s): pstep(cc, 'pmcmc_filter_step/%s/K=%d/N=%d' % (a[2], a[0], a[1]), *a),
             'pstep_unbiased', {'K': K, 'N': N, 'scheme': s})
            for K, N, s in sorted(cfg, key=lambda z: -z[0] * 10 - z[1])])
    return c.finish(explanation='For every starting particle vector the exact law of the real filter pass; the solver '
                    'shows E[exp(log_ell) * mean_i 1{uT_i = x}] = mean_i p(x, v_1..K | u_0 = u0_i) identically.')


def pstep(c, site, K, N, sch):
    T = Tables(K, g0=False)
    data = {'K': K, 'N': N, 'scheme': sch}
    t = Traced(fsm.pmcmc_step(K, N, sch), T.arrays(), arr([0] * N, (N, 1)), key())
    c.encoded(f'pmcmc_filter_step({sch})', t.neqns)
    starts = list(itertools.product(range(2), repeat=N))

    def body(ctx):
        out = []
        for u0 in starts:
            it = Interp(ctx)
            out.append((it.run(t.closed, t.flat[:4] + [arr(list(u0), (N, 1)), key()]), it))
        return out

    def cond(u0, x):
        s = 0
        for tr in itertools.product(range(2), repeat=K):
            path = (u0,) + tr
            if path[-1] != x:
                continue
            w = 1
            for k in range(K):
                w = E.mul(w, E.mul(T.T(k, path[k], path[k + 1]), T.li[k][path[k]]))
            s = E.add(s, w)
        return s
    for ctx, runs in regions(T.assume, body):
        c.regions += 1
        c.vacuous += feasible(ctx)[0] == 'sat'
        keys_ok(c, runs[0][1], site, 'pstep_unbiased', data)
        for u0, (res, it) in zip(starts, runs):
            c.states = max(c.states, it.peak)
            for x in (0, 1):
                est = 0
                for w, (us, ll) in res:
                    k = sum(1 for v in us.a.ravel() if v == x)
                    est = E.add(est, E.mul(E.mul(w, E.exp(ll.a.reshape(-1)[0])), Fraction(k, N)))
                want = 0
                for u in u0:
                    want = E.add(want, E.mul(cond(u, x), Fraction(1, N)))
                c.vcs += 1
                d = E.simp(E.sub(est, want))
                ok, m = prove_zero(ctx, d)
                if not ok:
                    c.candidate(site, f'started from {u0}: estimate of p(u_K = {x}, v) is biased', 'pstep_unbiased',
                                {**data, 'model': T.worst(ctx, d, m), 'u0': list(u0)})


# ------------------------------------------------------------------------------------------------ smoother (S08)
def s08(c):
    c.stub(LAW_STUB)
    c.stub('user callback: symbolic positive transition density between stored particles, indexed by v_k and t_k')
    cfg = [(1, 2), (1, 3), (2, 2)] if c.quick else [(1, 2), (1, 3), (1, 4), (2, 2), (2, 3), (3, 2)]
    c.bound('steps K, particles N in ' + str(cfg) + '; all positive transition densities')
    c.jobs([(f'smoother/K={K}/N={N}', lambda cc, K=K, N=N: smooth(cc, f'smoother/K={K}/N={N}', K, N), 'smoother',
             {'K': K, 'N': N}) for K, N in cfg] +
           [('smoother/state-dependent-measurement', ffbs_gap, 'smoother_ffbs', {})])
    return c.finish(explanation='Exact law of the real backward smoother over the stored particles; the solver shows '
                    'P(trajectory) = 1/N * prod_k D_k(i_k, i_k+1) / sum_j D_k(j, i_k+1).')


def smooth(c, site, K, N):
    D = [[[E.sym(f'd{k}_{i}_{j}', True) for j in range(N)] for i in range(N)] for k in range(K)]
    t = Traced(fsm.smoother(K, N), arr(fsm.smoother_layout(K, N, D)), key())
    c.encoded('bootstrap_backward_smoother', t.neqns)
    data = {'K': K, 'N': N}

    def body(ctx):
        it = Interp(ctx)
        return it.run(t.closed, t.flat), it
    for ctx, (res, it) in regions([], body):
        c.regions += 1
        c.states = max(c.states, it.peak)
        c.vacuous += feasible(ctx)[0] == 'sat'
        keys_ok(c, it, site, 'smoother', data)
        law = {}
        for w, o in res:
            accumulate(law, tuple(o[0].a.ravel()), w)
        for idx in itertools.product(range(N), repeat=K + 1):
            want = Fraction(1, N)
            for k in range(K):
                tot = 0
                for j in range(N):
                    tot = E.add(tot, D[k][j][idx[k + 1]])
                want = E.mul(want, E.div(D[k][idx[k]][idx[k + 1]], tot))
            c.vcs += 1
            ok, m = prove_zero(ctx, E.simp(E.sub(law.pop(tuple(k * N + i for k, i in enumerate(idx)), 0), want)))
            if not ok:
                c.candidate(site, f'probability of the trajectory through particles {idx} is wrong', 'smoother', data)
        for k in law:
            c.vcs += 1
            ok, m = prove_zero(ctx, law[k])
            if not ok:
                c.candidate(site, f'trajectory {k} is not made of stored particles in time order', 'smoother', data)


def ffbs_gap(c):
    """The particles of the accompanying filter carry weights p(v_k | u_{k-1}, v_{k-1}); the backward weights must contain
    that factor.  Decided on the two-state model: law of (u_0 | u_1, v_1) reconstructed by filter+smoother as N grows
    is the ratio of backward weights, so compare weights directly."""
    site = 'smoother/state-dependent-measurement'
    K, N = 1, 2
    T = Tables(K, g0=False)

    def f(tb, k):
        from fbs.samplers.smc import bootstrap_backward_smoother
        cb = callbacks(tb)
        vs, ts = vs_ts(K)
        us = jnp.array([[[0.], [1.]], [[1.], [1.]]])
        return bootstrap_backward_smoother(k, us, vs, ts, cb['trans_logpdf'])
    t = Traced(f, T.arrays(), key())

    def body(ctx):
        return Interp(ctx).run(t.closed, t.flat)
    for ctx, res in regions(T.assume, body):
        c.regions += 1
        p = 0
        for w, o in res:
            if o[0].a.ravel()[0] == 0:
                p = E.add(p, w)
        a = E.mul(T.T(0, 0, 1), T.li[0][0])
        b = E.mul(T.T(0, 1, 1), T.li[0][1])
        c.vcs += 1
        ok, m = prove_zero(ctx, E.simp(E.sub(p, E.div(a, E.add(a, b)))))
        if not ok:
            c.candidate(site, 'backward weights omit the measurement factor p(v_k+1 | u_k, v_k)', 'smoother_ffbs',
                        {'model': T.numeric(m)})


# ------------------------------------------------------------------------------------------------ pMCMC (S10, S11)
def s10(c):
    c.stub(LAW_STUB)
    c.stub(FSM_STUB)
    schemes = SCHEMES
    cfg = [(1, N, s) for N in (2, 3) for s in schemes]
    if not c.quick:
        cfg += [(2, 2, 'csmc.multinomial'), (2, 2, 'resampling.killing')]
    c.bound('steps K, particles N, scheme: ' + '; '.join(f'K={k} N={n} {s}' for k, n, s in cfg) +
            '; default particle index; pCN off')
    c.jobs([(f'pmcmc_kernel/chosen/{s}/K={K}/N={N}',
             lambda cc, a=(K, N, s): chosen(cc, 'pmcmc_kernel/chosen/%s/K=%d/N=%d' % (a[2], a[0], a[1]), *a),
             'pmcmc_chosen', {'K': K, 'N': N, 'scheme': s}) for K, N, s in sorted(cfg, key=lambda z: -z[0] * 9 - z[1])])
    return c.finish(explanation='Exact law of (proposed terminal state, proposed log-likelihood) of the real kernel; '
                    'the solver shows E[exp(log_ell) 1{uT = x}] = p(x, v_1..K).')


def chosen(c, site, K, N, sch):
    T = Tables(K, g0=False)
    data = {'K': K, 'N': N, 'scheme': sch}
    t = Traced(fsm.pmcmc(K, N, sch), T.arrays(), arr([9], (1,)), arr(0), arr([7] * (K + 1), (K + 1, 1)), key())
    c.encoded('pmcmc_kernel', t.neqns)

    def body(ctx):
        it = Interp(ctx)
        flat = list(t.flat)
        flat[5] = arr(float('-inf'))
        return it.run(t.closed, flat), it
    want = enumerate_marg(T, K)
    for ctx, (res, it) in regions(T.assume, body):
        c.regions += 1
        c.states = max(c.states, it.peak)
        c.vacuous += feasible(ctx)[0] == 'sat'
        keys_ok(c, it, site, 'pmcmc_chosen', data)
        est = {0: 0, 1: 0}
        for w, o in res:
            u = o[0].a.ravel()[0]
            if u not in est:
                raise SymError(f'terminal state {u} is not a particle')
            est[u] = E.add(est[u], E.mul(w, E.exp(o[1].a.reshape(-1)[0])))
        for u in (0, 1):
            c.vcs += 1
            d = E.simp(E.sub(est[u], want[u]))
            ok, m = prove_zero(ctx, d)
            if not ok:
                c.candidate(site, f'weighted law of the chosen particle is not p(u_K = {u}, v)', 'pmcmc_chosen',
                            {**data, 'model': T.worst(ctx, d, m)})


def s11(c):
    c.stub(LAW_STUB)
    c.stub(FSM_STUB)
    c.bound('steps K=1, particles N=2, multinomial and systematic schemes, N=1..2; arbitrary current log-likelihood '
            'and current state')
    c.jobs([(f'pmcmc_kernel/accept/{s}/N={N}', lambda cc, a=(1, N, s): accept(cc, 'pmcmc_kernel/accept/%s/N=%d' % (
        a[2], a[1]), *a), 'pmcmc_accept', {'K': 1, 'N': N, 'scheme': s})
            for s in ('csmc.multinomial', 'resampling.systematic') for N in (2, 1)])
    return c.finish(explanation='Exact law of the real kernel for a symbolic current log-likelihood; in every region '
                    'the solver shows P(accept | proposal) = min(1, exp(l\' - l)), and each outcome is either entirely '
                    'the proposal or entirely the current state, with matching diagnostics.')


def accept(c, site, K, N, sch):
    T = Tables(K, g0=False)
    L = E.sym('ell')
    data = {'K': K, 'N': N, 'scheme': sch}
    t = Traced(fsm.pmcmc(K, N, sch), T.arrays(), arr([9], (1,)), arr(L), arr([7] * (K + 1), (K + 1, 1)), key())
    c.encoded('pmcmc_kernel', t.neqns)

    def body(ctx):
        it = Interp(ctx)
        return it.run(t.closed, t.flat), it

    def bad(what, m=None):
        c.candidate(site, what, 'pmcmc_accept', {**data, 'model': T.numeric(m)})
    path = [K - k for k in range(K + 1)]
    for ctx, (res, it) in regions(T.assume, body):
        c.regions += 1
        c.states = max(c.states, it.peak)
        c.vacuous += feasible(ctx)[0] == 'sat'
        keys_ok(c, it, site, 'pmcmc_accept', data)
        acc, tot = {}, {}
        for w, o in res:
            uT, ll, ys, (ap, flag, pll, cll) = o[0], o[1], o[2], o[3:]
            g = lambda a: a.a.reshape(-1)[0]
            c.vcs += 1
            a = bool(g(flag))
            isprop = g(uT) in (0, 1) and g(ll) == g(pll) and list(ys.a.ravel()) == path
            iscur = g(uT) == 9 and g(ll) == L and list(ys.a.ravel()) == [7] * (K + 1)
            if not (isprop if a else iscur):
                # equal expressions up to algebra?
                ok, m = (prove_zero(ctx, E.sub(g(ll), g(pll) if a else L)) if g(uT) in ((0, 1) if a else (9,)) and
                         list(ys.a.ravel()) == (path if a else [7] * (K + 1)) else (False, None))
                if not ok:
                    bad(f'outcome with accepted={a} mixes proposal and current state', m)
            accumulate(tot, (g(pll), g(ap), g(cll)), w)
            if a:
                accumulate(acc, (g(pll), g(ap), g(cll)), w)
        for k, w in tot.items():
            pll, ap, cll = k
            d = E.sub(pll, L)
            want = E.exp(E.mkminmax('min', [0, d]))
            for name, diff in (('P(accept) is not min(1, exp(new - current))', E.sub(acc.get(k, 0), E.mul(w, want))),
                               ('reported acceptance probability is wrong', E.sub(ap, want)),
                               ('reported current log-likelihood is wrong', E.sub(cll, L))):
                c.vcs += 1
                ok, m = prove_zero(ctx, E.simp(diff))
                if not ok:
                    bad(name, m)


# ------------------------------------------------------------------------------------------------ pCN (S12)
def s12(c):
    c.stub('sampler: two independent draws from a Gaussian N(m, C), represented by symbols; math.sqrt on a symbolic step')
    c.bound('scalar and 2-vector states; every step parameter delta > 0')
    c.jobs([(f'pcn/{d}', lambda cc, d=d: pcn(cc, f'pcn/{d}', d), 'pcn', {}) for d in ('2',)])
    return c.finish(explanation='The real proposal with symbolic step, state and draws: the solver shows it is affine '
                    'x\' - m = rho (x - m) + c0 (r0 - m) + c1 (r1 - m) with c0^2 + c1^2 = 1 - rho^2, |rho| <= 1, i.e. '
                    'reversible for N(m, C).')


class symbolic_math:
    """math.sqrt / exp / log accept traced values."""
    def __enter__(self):
        import math
        self.old = {}
        for n in ('sqrt', 'exp', 'log'):
            o = self.old[n] = getattr(math, n)

            def f(x, *a, _o=o, _n=n):
                if isinstance(x, jax.core.Tracer):
                    return getattr(jnp, _n)(x)
                return _o(x, *a)
            setattr(math, n, f)

    def __exit__(self, *a):
        import math
        for n, o in self.old.items():
            setattr(math, n, o)


def pcn(c, site, d):
    from fbs.samplers.smc import pcn_proposal
    delta = E.sym('delta', True)

    def f(dl, x, m, k):
        return pcn_proposal(k, dl, x, m, lambda kk: jax.random.normal(kk, (2,)))
    x, m = symarr('x', (2,)), symarr('m', (2,))
    with symbolic_math():
        t = Traced(f, arr(delta), x, m, key())
    c.encoded('pcn_proposal', t.neqns)

    def body(ctx):
        it = Interp(ctx, law=False)
        return it.run(t.closed, t.flat), it
    for ctx, (res, it) in regions([], body):
        c.regions += 1
        c.vacuous += feasible(ctx)[0] == 'sat'
        keys_ok(c, it, site, 'pcn', {})
        (w, o), = res
        zs = {}
        for kind, a, p, i in it.draws:
            zs.setdefault(i, []).append(E.ATOMS[a])
        if sorted(zs) != [0, 1] or any(len(v) != 2 for v in zs.values()):
            raise SymError('expected two Gaussian draws')
        base = {}
        for i in range(2):
            out = o[0].a[i]
            X, Mm = x.a[i], m.a[i]
            r = [E.atomP(a) for a in zs[i]]
            vars_ = [X, Mm] + r
            ids = [next(iter(v.atoms())) for v in vars_]
            co = E.linear_coeffs(out, ids)
            c.vcs += 5
            if co is None:
                c.candidate(site, 'proposal is not affine in the state and the draws', 'pcn', {})
                continue
            (a, b, c0, c1), rest = co
            for what, diff in (
                    ('proposal has a constant offset', rest),
                    ('proposal does not fix the mean', E.sub(E.add(E.add(a, b), E.add(c0, c1)), 1)),
                    ('variance of the innovation is not 1 - rho^2',
                     E.sub(E.add(E.add(E.mul(a, a), E.mul(c0, c0)), E.mul(c1, c1)), 1))):
                ok, mm = prove_zero(ctx, E.simp(diff))
                if not ok:
                    c.candidate(site, what, 'pcn', {})


# ------------------------------------------------------------------------------------------------ twisted SMC (S13)
def s13(c):
    c.stub(LAW_STUB)
    c.stub('user callbacks: two-state tables for the twisting function, the transition and the proposal, indexed by time '
           'and observation')
    cfg = [(1, 1), (1, 2), (2, 1)] if c.quick else [(1, 1), (1, 2), (1, 3), (2, 1), (3, 1)]
    c.bound(f'steps K, particles N in {cfg}; multinomial resampling; all positive tables')
    c.jobs([(f'twisted_smc/K={K}/N={N}', lambda cc, K=K, N=N: twist(cc, f'twisted_smc/K={K}/N={N}', K, N), 'twisted',
             {'K': K, 'N': N}) for K, N in sorted(cfg, key=lambda z: -z[0] * 4 - z[1])])
    return c.finish(explanation='Exact joint law of (final particles, normalised weights) of the real sampler against '
                    'the algorithm\'s law (resample by the previous weights, propose, weight by p psi / (q psi_prev)); '
                    'the solver decides the identity of the particle law and of every weight moment.')


def twisted_model(K, s):
    return dict(p1=s('p0', True), psi=[[s(f'psi{k}', False), 1] for k in range(K + 1)],
                p=[None] + [[s(f'p{k}_{u}', True) for u in range(2)] for k in range(1, K + 1)],
                q=[None] + [[s(f'q{k}_{u}', True) for u in range(2)] for k in range(1, K + 1)])


def twist(c, site, K, N):
    assume = []

    def s(n, prob):
        x = E.sym(n, True)
        if prob:
            assume.append(('<', E.sub(x, 1)))
        return x
    md = twisted_model(K, s)
    data = {'K': K, 'N': N}
    t = Traced(fsm.twisted(K, N), {k: arr(v) for k, v in fsm.twisted_layout(K, **md).items()}, key())
    c.encoded('twisted_smc', t.neqns)

    def body(ctx):
        it = Interp(ctx)
        return it.run(t.closed, t.flat), lawref.twisted_law(K, N, md), it
    for ctx, (res, want, it) in regions(assume, body):
        c.regions += 1
        c.states = max(c.states, it.peak)
        c.vacuous += feasible(ctx)[0] == 'sat'
        keys_ok(c, it, site, 'twisted', data)
        got = {}
        for w, (xs, lw) in res:
            r = got.setdefault(tuple(xs.a.ravel()), [0] + [0] * N)
            r[0] = E.add(r[0], w)
            for i in range(N):
                r[1 + i] = E.add(r[1 + i], E.mul(w, E.exp(lw.a.ravel()[i])))
        for x in set(want) | set(got):
            g, h = got.get(x, [0] * (N + 1)), want.get(x, [0] * (N + 1))
            for i in range(N + 1):
                c.vcs += 1
                ok, m = prove_zero(ctx, E.simp(E.sub(g[i], h[i])))
                if not ok:
                    c.candidate(site, f'final particles {x}: ' + ('probability' if i == 0 else
                                                                  f'expected weight of particle {i - 1}') + ' is wrong',
                                'twisted', data)


# ------------------------------------------------------------------------------------------------ Gibbs (S14)
def s14(c):
    c.stub(LAW_STUB)
    c.stub('user callbacks: a two-state pair process given by arbitrary symbolic backward transition and measurement tables; '
           'the forward sampler is its exact conditional law given the end point (x0, y0)')
    A, R = 'r,b,l', 'r,b'
    cfg = [(1, 2, True, True, A), (1, 2, False, True, A), (1, 2, True, False, A), (2, 2, False, False, 'l0,l1'),
           (2, 2, False, False, 'b0,l1'), (2, 2, False, False, 'r,l0,b1'), (2, 2, True, False, 'l0'),
           (2, 2, True, False, 'l1')]
    if not c.quick:
        cfg += [(2, 2, True, False, 'l0_0,l1_0'), (2, 2, True, False, 'b1_1,l1_0'), (2, 2, True, False, 'b0_0,l1_1'),
                (1, 3, True, False, A), (2, 2, False, False, 'r,b0,l1')]
    c.bound('(steps K, particles N, explicit_backward, explicit_final, symbolic tables) in ' + str(cfg) +
            '; tables named r (final law), bk (backward transition k), lk (measurement k); those not named symbolic are fixed '
            'unequal rationals; y0 = 1; the reference normal draw is abstracted to its sign when the final law is explicit')
    c.jobs([(f'gibbs_kernel/K={K}/N={N}/eb={eb}/ef={ef}/{fr}',
             lambda cc, a=(K, N, eb, ef, fr): gibbs(cc, 'gibbs_kernel/K=%d/N=%d/eb=%s/ef=%s/%s' % a, *a[:4],
                                                    a[4].split(',')),
             'gibbs', {'K': K, 'N': N, 'eb': eb, 'ef': ef}) for K, N, eb, ef, fr in cfg])
    return c.finish(explanation='One step of the real Gibbs kernel on a finite joint model with exact forward sampler; the '
                    'solver shows sum_x0 p(x0|y0) P(x0 -> x) = p(x|y0), jointly with uniform indices.')


def gibbs(c, site, K, N, eb, ef, free=('r', 'b', 'l')):
    assume, syms, probs = [], [], []
    y0 = 1
    cnt = [0]

    def s(n):
        # positive weight: symbolic, or a fixed rational when the configuration keeps it concrete
        cnt[0] += 1
        if any(n.startswith(f) for f in free):
            syms.append(E.sym(n, True))
            return syms[-1]
        return Fraction(2 + cnt[0] * 5 % 11, 7)

    def pr(n):
        # a probability; bounded away from 0 and 1 so that no weight is within 1e-12 of one (degenerate forced move)
        if any(n.startswith(f) for f in free):
            x = E.sym(n, True)
            syms.append(x)
            probs.append(x)
            assume.extend([('<', E.sub(x, Fraction(999, 1000))), ('>', E.sub(x, Fraction(1, 1000)))])
            return x
        cnt[0] += 1
        return Fraction(2 + cnt[0] * 5 % 11, 17)
    if ef:
        r01 = s('r01')
        r = [[1, r01], [1, r01]]
    else:
        r = [[s('r00'), s('r01')], [s('r10'), 1]]
    B = [[[pr(f'b{k}_{u}{v}') for v in range(2)] for u in range(2)] for k in range(K)]
    L = [[[pr(f'l{k}_{u}{v}') for v in range(2)] for u in range(2)] for k in range(K)]
    jm = fsm.JointModel(K, r, B, L)
    tabs, Pth = jm.tables()
    data = {'K': K, 'N': N, 'eb': eb, 'ef': ef, 'y0': y0}
    t = Traced(fsm.gibbs(K, N, Pth, eb, ef), {k: arr(v) for k, v in tabs.items()}, arr([0], (1,)), arr([y0], (1,)),
               arr([0] * (K + 1), (K + 1,), 'int64'), key())
    c.encoded(f'gibbs_kernel(explicit_backward={eb}, explicit_final={ef})', t.neqns)
    paths = list(itertools.product(range(2), repeat=K))
    marg = {}
    for x0 in range(2):
        tot = 0
        for u in paths:
            for v in paths:
                tot = E.add(tot, jm.joint(u + (x0,), v + (y0,)))
        marg[x0] = tot
    enc = (lambda u: u) if not ef else (lambda u: 2 * u - 1)

    def body(ctx):
        tot = {}
        it = None
        for x0 in range(2):
            for bs in itertools.product(range(N), repeat=K + 1):
                it = Interp(ctx)
                if ef:
                    it.normal_law = [(-1, Fraction(1, 2)), (1, Fraction(1, 2))]
                res = it.run(t.closed, t.flat[:3] + [arr([enc(x0)], (1,)), arr([y0], (1,)),
                                                     arr(list(bs), (K + 1,), 'int64'), key()])
                c.states = max(c.states, it.peak)
                for w, (x, us, b, acc) in res:
                    if list(us.a[-1].ravel()) != list(x.a.ravel()):
                        raise SymError('returned path does not end in the returned x0')
                    if [bool(z) for z in acc.a.ravel()] != [p != q for p, q in zip(b.a.ravel(), bs)]:
                        raise SymError('reported index changes are wrong')
                    accumulate(tot, (tuple(x.a.ravel()), tuple(b.a.ravel())), E.mul(marg[x0], w))
        return tot, it
    for ctx, (tot, it) in regions(assume, body):
        c.regions += 1
        c.vacuous += feasible(ctx)[0] == 'sat'
        keys_ok(c, it, site, 'gibbs', data)
        for x0 in range(2):
            s_ = 0
            for b in itertools.product(range(N + 1 if ef else N), repeat=K + 1):
                g = tot.get(((enc(x0),), b), 0)
                s_ = E.add(s_, g)
            c.vcs += 1
            d = E.simp(E.sub(s_, E.mul(marg[x0], N ** (K + 1))))
            ok, m = prove_zero(ctx, d)
            if not ok:
                env = worst(ctx, d, m, syms, E.mul(E.add(marg[0], marg[1]), N ** (K + 1)), prob=probs)
                num = lambda z: E.subst_num(z, {**{next(iter(q.atoms())): .5 for q in syms}, **env})
                c.candidate(site, f'one step from p(x0|y0) does not return p(x0|y0) at x0={x0}', 'gibbs',
                            {**data, 'joint': [[[num(z) for z in q] for q in r]] +
                             [[[[num(z) for z in e] for e in k] for k in X] for X in (B, L)]})
