"""S01-S03: resampling schemes."""
import itertools
from symjax.harness import *
from symjax.smt import prove_zero, prove, Ctx
from symjax.interp import hygiene
from . import common


def scheme_table():
    from fbs.samplers import resampling as R
    from fbs.samplers.csmc import resamplings as CR
    unc = lambda f: (lambda w, k: f(k, w, 0, 0, False))
    return {
        'resampling.systematic': R.systematic,
        'resampling.stratified': R.stratified,
        'resampling.killing': R.killing,
        'csmc.multinomial': unc(CR.multinomial),
        'csmc.killing': unc(CR.killing),
        'csmc.systematic': unc(CR.systematic),
    }


def simplex(N):
    ws = [E.sym(f'w{i}') for i in range(N - 1)]
    tot = 0
    for w in ws:
        tot = E.add(tot, w)
    full = ws + [E.sub(1, tot)]
    assum = [('>=', w) for w in full]
    return ws, full, assum


def wmodel(model, ws):
    vals = [float((model or {}).get(next(iter(w.atoms())), 0.3)) for w in ws]
    return vals + [1 - sum(vals)]


def uncond_laws(c, names, Ns):
    for name in names:
        fn = scheme_table()[name]
        for N in Ns:
            yield name, fn, N


def s01(c):
    c.stub('uniform draws: independent U[0,1); choice(p): index i with probability p_i / sum(p); split keys independent')
    c.bound('N particles in {1,2,3}' if c.quick else 'N particles in {1,2,3,4} (killing and multinomial: {1,2,3})')
    c.bound('all weight vectors of the probability simplex (zero weights included), exact real arithmetic')
    from fbs.samplers import resampling as R
    jobs = []
    for name, fn in scheme_table().items():
        Ns = (3, 2, 1) if c.quick or 'killing' in name or 'multinomial' in name else (4, 3, 2, 1)
        for N in Ns:
            jobs.append((f'{name}/N={N}', lambda cc, a=(name, fn, N): unbiased(cc, f'{a[0]}/N={a[2]}', *a),
                         'resampling_unbiased', {'fn': name, 'N': N, 'weights': None}))
    for N in (3, 2, 1):
        jobs.append((f'resampling.multinomial/N={N}',
                     lambda cc, N=N: sorted_multinomial(cc, 'resampling.multinomial', R.multinomial, (N,)),
                     'resampling_unbiased', {'fn': 'resampling.multinomial', 'N': N, 'weights': None}))
    c.jobs(sorted(jobs, key=lambda j: -j[3]['N']))
    return c.finish(explanation='Law of the real resampling functions computed exactly by symbolic execution of '
                    'their jaxprs over all weight vectors; the solver decides E[offspring_i] = N w_i and index range '
                    'in every region of the weight simplex.')


def unbiased(c, site, name, fn, N):
    ws, full, assum = simplex(N)
    W = arr(full)
    t = Traced(lambda w, k: fn(w, k), W, key())
    c.encoded(name, t.neqns)

    def body(ctx):
        it = Interp(ctx, law=True)
        return it, t.run(it)

    for ctx, (it, res) in regions(assum, body):
        c.regions += 1
        c.states = max(c.states, it.peak)
        r, m = feasible(ctx)
        c.vacuous += r == 'sat'
        if r == 'unsat':
            continue
        c.vcs += 1
        bad = hygiene(it.used)
        if bad:
            c.candidate(site + '/keys', f'random key {bad[0][0]} is {bad[0][1]}: draws are not independent',
                        'resampling_unbiased', {'fn': name, 'N': N, 'weights': None})
        tot = 0
        for w, o in res:
            tot = E.add(tot, w)
            bad = [x for x in o.a.ravel() if not 0 <= x < N]
            if bad and (isinstance(w, P) or w != 0):
                c.vcs += 1
                ok, m = prove_zero(ctx, w)
                if not ok:
                    c.candidate(site + '/range', f'index {bad[0]} out of range 0..{N-1}', 'resampling_unbiased',
                                {'fn': name, 'N': N, 'weights': wmodel(m, ws)})
            if o.a.shape != (N,):
                c.candidate(site + '/shape', f'{o.a.shape} indices returned', 'resampling_unbiased',
                            {'fn': name, 'N': N, 'weights': None})
        c.vcs += 1
        ok, m = prove_zero(ctx, E.sub(tot, 1))
        if not ok:
            c.candidate(site + '/law', 'outcome probabilities do not sum to one', 'resampling_unbiased',
                        {'fn': name, 'N': N, 'weights': wmodel(m, ws)})
        for i in range(N):
            s = 0
            for w, o in res:
                k = sum(1 for x in o.a.ravel() if x == i)
                s = E.add(s, E.mul(w, k))
            c.vcs += 1
            d = E.simp(E.sub(s, E.mul(N, full[i])))
            ok, m = prove_zero(ctx, d)
            if c.regions < 6 and i == 0:
                c.sample(f'{site}: region {len(ctx.pc)} splits: E[#0] - N w0 = {E.show(d, 4)}')
            if not ok:
                c.candidate(site, f'E[offspring of particle {i}] != N w_{i}', 'resampling_unbiased',
                            {'fn': name, 'N': N, 'weights': wmodel(m, ws)})


def sorted_multinomial(c, name, fn, Ns):
    """pointwise: the m-th index is the generalised inverse of the weight CDF at the m-th normalised exponential
    spacing S_m = (L_0+..+L_m)/(L_0+..+L_N), L_k = -log u_k iid Exp(1); S is then a vector of N sorted uniforms."""
    c.stub('sorted uniforms: N+1 iid exponential spacings normalised by their total are N ordered uniforms (theorem)')
    for N in Ns:
        site = f'{name}/N={N}'
        ws, full, assum = simplex(N)
        W = arr(full)
        t = Traced(lambda w, k: fn(w, k), W, key())
        c.encoded(name, t.neqns)

        def body(ctx):
            it = Interp(ctx, law=False)
            return it, t.run(it)
        for ctx, (it, res) in regions(assum, body):
            c.regions += 1
            r, m = feasible(ctx)
            c.vacuous += r == 'sat'
            us = [E.atomP(E.ATOMS[a]) for k, a, p, i in it.draws if k == 'uniform']
            if len(us) != N + 1 or len(res) != 1:
                raise SymError('sorted-uniform construction not recognised')
            L = [E.neg(E.log(u)) for u in us]
            tot = 0
            for x in L:
                tot = E.add(tot, x)
            acc = 0
            cum = [0]
            for w in full:
                cum.append(E.add(cum[-1], w))
            idx = list(res[0][1].a.ravel())
            for mm in range(N):
                acc = E.add(acc, L[mm])
                i = idx[mm]
                if not 0 <= i < N:
                    c.candidate(site, f'index {i} out of range', 'resampling_unbiased',
                                {'fn': name, 'N': N, 'weights': None})
                    continue
                for neg_ in (('<', E.sub(acc, E.mul(cum[i], tot))), ('>', E.sub(acc, E.mul(cum[i + 1], tot)))):
                    c.vcs += 1
                    ok, m = prove(ctx, [neg_])
                    if not ok:
                        c.candidate(site, f'index {mm} is not the inverse CDF at the {mm}-th ordered uniform',
                                    'resampling_unbiased', {'fn': name, 'N': N, 'weights': wmodel(m, ws)})


def s02(c):
    """low variance of systematic / stratified."""
    from fbs.samplers import resampling as R
    from fbs.samplers.csmc import resamplings as CR
    c.stub('uniform draws are arbitrary values in (0,1)')
    c.bound('N particles in {2,3}' if c.quick else 'N particles in {2,3,4} (stratified {2,3})')
    c.bound('all weight vectors of the simplex and all uniform draws, exact real arithmetic')
    tab = {'resampling.systematic': (lambda w, k: R.systematic(w, k), True),
           'csmc.systematic': (lambda w, k: CR.systematic(k, w, 0, 0, False), True),
           'resampling.stratified': (lambda w, k: R.stratified(w, k), False)}
    c.jobs([(f'{name}/N={N}', lambda cc, a=(name, fn, N, per): lowvar(cc, f'{a[0]}/N={a[2]}', *a),
             'resampling_lowvar', {'fn': name, 'N': N, 'weights': None, 'per': per})
            for name, (fn, per) in tab.items() for N in ((3, 2) if c.quick or not per else (4, 3, 2))])
    return c.finish(explanation='Path-wise symbolic execution with symbolic weights and uniforms; on each path the '
                    'solver shows |#(indices <= i) - N C_i| <= 1 for every i (and |#i - N w_i| <= 1 for systematic) '
                    'and that the indices are ordered.')


def lowvar(c, site, name, fn, N, per):
    ws, full, assum = simplex(N)
    t = Traced(lambda w, k: fn(w, k), arr(full), key())
    c.encoded(name, t.neqns)

    def body(ctx):
        it = Interp(ctx, law=False)
        return it, t.run(it)
    cum = [0]
    for w in full:
        cum.append(E.add(cum[-1], w))
    for ctx, (it, res) in regions(assum, body):
        c.regions += 1
        r, m = feasible(ctx)
        c.vacuous += r == 'sat'
        (w, o), = res
        idx = list(o.a.ravel())
        if idx != sorted(idx) or not all(0 <= x < N for x in idx):
            # paths of measure zero (exact ties) are excluded: look for an interior witness
            c.candidate(site, f'indices {idx} not ordered or out of range', 'resampling_lowvar',
                        {'fn': name, 'N': N, 'weights': wmodel(m, ws), 'per': per})
            continue
        for i in range(N):
            le_ = sum(1 for x in idx if x <= i)
            todo = [(le_, E.mul(N, cum[i + 1]), 'cumulative')]
            if per:
                todo.append((sum(1 for x in idx if x == i), E.mul(N, full[i]), 'per-particle'))
            for cnt, target, lab in todo:
                for neg_ in (('>', E.sub(E.sub(cnt, target), 1)), ('<', E.add(E.sub(cnt, target), 1))):
                    c.vcs += 1
                    ok, m = prove(ctx, [neg_])
                    if not ok:
                        c.candidate(site, f'{lab} offspring count of particle {i} is off by more than one',
                                    'resampling_lowvar', {'fn': name, 'N': N, 'weights': wmodel(m, ws), 'per': per})


def s03(c):
    from fbs.samplers.csmc import resamplings as CR
    c.stub('uniform draws: independent U[0,1); choice(p): index i with probability p_i / sum(p); split keys independent')
    c.bound('N particles in {1,2,3}, every pair (i,j); all weight vectors of the open simplex')
    c.jobs([(f'csmc.{nm}/N={N}', lambda cc, a=(nm, N): conditional(cc, f'csmc.{a[0]}/N={a[1]}', a[0],
                                                                    getattr(CR, a[0]), a[1]),
             'resampling_cond', {'fn': nm, 'N': N, 'weights': None})
            for nm in ('multinomial', 'killing') for N in (3, 2, 1)])
    return c.finish(explanation='Exact law of the real conditional resampling for every (i,j) against the law of the '
                    'real unconditional scheme under a uniformly random cyclic shift: w_i P(A | A_j = i) = P(A, A_j = i).')


def conditional(c, site, nm, fn, N):
    ws, full, assum = simplex(N)
    assum = [('>', w) for w in full]
    W = arr(full)
    tu = Traced(lambda w, k: fn(k, w, 0, 0, False), W, key())
    tc = Traced(lambda w, k, i, j: fn(k, w, i, j, True), W, key(), arr(0, (), 'int64'), arr(0, (), 'int64'))
    c.encoded(f'csmc.resamplings.{nm}', tc.neqns)

    def body(ctx):
        iu = Interp(ctx, law=True)
        un = tu.run(iu)
        used = [iu.used]
        co = {}
        pk = 0
        for i in range(N):
            for j in range(N):
                it = Interp(ctx, law=True)
                co[i, j] = it.run(tc.closed, [W, tc.flat[1], arr(i, (), 'int64'), arr(j, (), 'int64')])
                pk = max(pk, it.peak)
                used.append(it.used)
        c.states = max(c.states, pk)
        return un, co, used
    for ctx, (un, co, used) in regions(assum, body):
        c.regions += 1
        for u in used:
            c.vcs += 1
            bad = hygiene(u)
            if bad:
                c.candidate(site + '/keys', f'random key {bad[0][0]} is {bad[0][1]}: draws are not independent',
                            'resampling_cond', {'fn': nm, 'N': N, 'weights': None})
                break
        r, m = feasible(ctx)
        c.vacuous += r == 'sat'
        if r == 'unsat':
            continue
        sym = {}
        for w, o in un:
            a = tuple(o.a.ravel())
            for s in range(N):
                b = tuple(a[(q - s) % N] for q in range(N))
                sym[b] = E.add(sym.get(b, 0), E.div(w, N))
        for (i, j), res in co.items():
            law = {}
            for w, o in res:
                a = tuple(o[0].a.ravel()) if isinstance(o, list) else tuple(o.a.ravel())
                law[a] = E.add(law.get(a, 0), w)
            for a in set(law) | {b for b in sym if b[j] == i}:
                c.vcs += 1
                if a[j] != i or any(not 0 <= x < N for x in a):
                    ok, m = prove_zero(ctx, law[a])
                    what = f'conditional resampling returned {a} although ancestor {j} must be {i}'
                else:
                    d = E.sub(E.mul(full[i], law.get(a, 0)), sym.get(a, 0))
                    ok, m = prove_zero(ctx, d)
                    what = f'P(A={a} | A_{j}={i}) is not the conditional law of the unconditional scheme'
                if not ok:
                    c.candidate(site, what, 'resampling_cond',
                                {'fn': nm, 'N': N, 'weights': wmodel(m, ws), 'i': i, 'j': j})
