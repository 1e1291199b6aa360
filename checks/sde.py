"""Diffusion-side checks: identities and Gaussian laws of sde_ids.py decided for all parameter values."""
from symjax.harness import *
from symjax.interp import hygiene
from symjax import contracts
from . import sde_ids


class Env:
    sym = True

    def __init__(self, posuf=('sig', 'q')):
        self.posuf = posuf
        self.cache = {}

    def uf(self, name, nargs):
        k = (name, nargs)
        if k not in self.cache:
            self.cache[k] = I.opaque(name, nargs, pos=name in self.posuf)
        return self.cache[k]

    eig_hint = staticmethod(contracts.eig_hint)
    expm_hint = staticmethod(contracts.expm_hint)


def mkinputs(inputs):
    args, syms, assume = {}, [], []
    for n, (kind, shape) in inputs.items():
        if kind == 'key':
            args[n] = key(n)
            continue
        a = symarr(n, shape, kind == 'pos')
        args[n] = a
        syms += [(n, i, x) for i, x in zip(np.ndindex(*shape), a.a.reshape(-1))]
    return args, syms


def flat(x):
    return [v for v in np.asarray(x.a, dtype=object).reshape(-1)]


def model_data(model, syms, inputs):
    """concrete input values of a solver model"""
    out = {}
    for n, (kind, shape) in inputs.items():
        if kind != 'key':
            out[n] = np.zeros(shape)
    for n, i, x in syms:
        a = next(iter(x.atoms()))
        v = (model or {}).get(a)
        if v is None:
            v = 0.7 if inputs[n][0] == 'pos' else 0.3
        out[n][i] = float(v)
    return {k: v.tolist() for k, v in out.items()}


def broadcast_pair(l, r):
    shp = np.broadcast_shapes(l.a.shape, r.a.shape)
    return (list(np.broadcast_to(l.a, shp).reshape(-1)), list(np.broadcast_to(r.a, shp).reshape(-1)))


def ident_job(pid, idx):
    site, f, inputs = sde_ids.IDENTS[pid][idx]

    def job(cc):
        env = Env()
        args, syms = mkinputs(inputs)
        names = list(inputs)
        shapes = {}

        def fn(*a):
            out = f(env, **dict(zip(names, a)))
            res = {}
            for k, (x, y) in out.items():
                x, y = jnp.asarray(x), jnp.asarray(y)
                shapes[k] = (x.shape, y.shape)
                res[k] = (x, y)
            return res
        tr = Traced(fn, *[args[n] for n in names])
        cc.encoded(site, tr.neqns)
        for k, (a, b) in shapes.items():
            if a != b and b != () and a != ():
                cc.candidate(site, f'{k}: shape {a}, expected {b}', 'ident',
                             {'pid': pid, 'idx': idx, 'label': k, 'inputs': model_data(None, syms, inputs)})
                return
        for ctx, outs in regions([], lambda c: tr.run(Interp(c, law=False))):
            cc.regions += 1
            r, m = feasible(ctx)
            if r == 'unsat':
                continue
            cc.vacuous += r == 'sat'
            (w, out), = outs
            for k, (x, y) in out.items():
                for u, v in zip(*broadcast_pair(x, y)):
                    ok, mod = smt.prove_eq(ctx, u, v)
                    cc.vcs += 1
                    if not ok:
                        cc.candidate(site, f'{k} fails', 'ident',
                                     {'pid': pid, 'idx': idx, 'label': k, 'inputs': model_data(mod, syms, inputs)})
                        return
        cc.sample(f'{site}: {", ".join(shapes)}')
    return site, job, 'ident', {'pid': pid, 'idx': idx, 'label': None, 'inputs': {}}


def law_job(pid, idx):
    site, f, ref, inputs = sde_ids.LAWS[pid][idx]

    def job(cc):
        env = Env()
        args, syms = mkinputs(inputs)
        names = list(inputs)
        tr = Traced(lambda k, *a: f(env, k, **dict(zip(names, a))), key('k'), *[args[n] for n in names])
        rf = Traced(lambda *a: ref(env, **dict(zip(names, a))), *[args[n] for n in names])
        cc.encoded(site, tr.neqns)
        data = lambda lab, m: {'pid': pid, 'idx': idx, 'label': lab, 'inputs': model_data(m, syms, inputs)}

        def body(c):
            it = Interp(c, law=False)
            return tr.run(it), it, rf.run(Interp(c, law=False))
        for ctx, (outs, it, rouf) in regions([], body):
            cc.regions += 1
            r, _ = feasible(ctx)
            if r == 'unsat':
                continue
            cc.vacuous += r == 'sat'
            for b in hygiene(it.used):
                cc.hyg.append((site, b))
            (w, out), = outs
            (w2, rout), = rouf
            if any(d[0] != 'normal' for d in it.draws):
                cc.candidate(site, 'the randomness is not a vector of independent normals', 'law', data(None, None))
                return
            ids = []
            for dr in it.draws:
                if dr[1] not in ids:
                    ids.append(dr[1])
            for lab, o in out.items():
                mean, cov = rout[lab]
                xs = flat(o)
                mean = flat(mean)
                n = len(mean)
                cov = np.asarray(cov.a, dtype=object).reshape(n, n)
                if len(xs) != n:
                    cc.candidate(site, f'{lab}: {len(xs)} values, expected {n}', 'law', data(lab, None))
                    return
                lc = [E.linear_coeffs(x if isinstance(x, P) else E.num(x), ids) for x in xs]
                if any(c is None for c in lc):
                    cc.candidate(site, f'{lab}: not an affine function of the Gaussian draws', 'law', data(lab, None))
                    return
                for i in range(n):
                    ok, m = smt.prove_eq(ctx, lc[i][1], mean[i])
                    cc.vcs += 1
                    if not ok:
                        cc.candidate(site, f'{lab}: mean of entry {i} is wrong', 'law', data(lab, m))
                        return
                for i in range(n):
                    for j in range(i, n):
                        s = 0
                        for a, b in zip(lc[i][0], lc[j][0]):
                            s = E.add(s, E.mul(a, b))
                        ok, m = smt.prove_eq(ctx, s, cov[i, j])
                        cc.vcs += 1
                        if not ok:
                            cc.candidate(site, f'{lab}: covariance of entries {i}, {j} is wrong', 'law', data(lab, m))
                            return
        cc.sample(f'{site}: mean and covariance of {", ".join(out)} ({len(ids)} normal draws)')
    return site, job, 'law', {'pid': pid, 'idx': idx, 'label': None, 'inputs': {}}


def expect_job(pid, idx):
    site, f, ref, inputs = sde_ids.EXPECTS[pid][idx]

    def job(cc):
        env = Env()
        args, syms = mkinputs(inputs)
        names = list(inputs)
        tr = Traced(lambda k, *a: f(env, k, **dict(zip(names, a))), key('k'), *[args[n] for n in names])
        rf = Traced(lambda *a: ref(env, **dict(zip(names, a))), *[args[n] for n in names])
        cc.encoded(site, tr.neqns)
        data = lambda lab, m: {'pid': pid, 'idx': idx, 'label': lab, 'inputs': model_data(m, syms, inputs)}

        def body(c):
            it = Interp(c, law=False)
            return tr.run(it), it, rf.run(Interp(c, law=False))
        for ctx, (outs, it, rouf) in regions([], body):
            cc.regions += 1
            r, _ = feasible(ctx)
            if r == 'unsat':
                continue
            cc.vacuous += r == 'sat'
            for b in hygiene(it.used):
                cc.hyg.append((site, b))
            (w, out), = outs
            (w2, rout), = rouf
            ids = list(dict.fromkeys(d[1] for d in it.draws if d[0] == 'normal'))
            uni = list(dict.fromkeys(d[1] for d in it.draws if d[0] == 'uniform'))
            if any(d[0] not in ('normal', 'uniform') for d in it.draws):
                cc.candidate(site, 'the randomness is not a vector of independent normals and uniforms', 'expectation', data(None, None))
                return
            for lab, o in out.items():
                xs, rs = flat(o), flat(rout[lab])
                if len(xs) != len(rs):
                    cc.candidate(site, f'{lab}: {len(xs)} values, expected {len(rs)}', 'expectation', data(lab, None))
                    return
                for x, y in zip(xs, rs):
                    g = expect(x, ids, uni)
                    ok, m = (False, None) if g is None else smt.prove_eq(ctx, g, y)
                    cc.vcs += 1
                    if not ok:
                        cc.candidate(site, f'expected {lab} is wrong', 'expectation', data(lab, m))
                        return
        cc.sample(f'{site}: expectation over {len(ids)} normal and {len(uni)} uniform draws')
    return site, job, 'expectation', {'pid': pid, 'idx': idx, 'label': None, 'inputs': {}}


def mix_job(pid, idx):
    from . import exp_ids
    site, f, ref, inputs = exp_ids.MIXES[pid][idx]

    def job(cc):
        env = Env()
        args, syms = mkinputs(inputs)
        names = list(inputs)
        tr = Traced(lambda k, *a: f(env, k, **dict(zip(names, a))), key('k'), *[args[n] for n in names])
        rf = Traced(lambda *a: ref(env, **dict(zip(names, a))), *[args[n] for n in names])
        cc.encoded(site, tr.neqns)

        def body(c):
            it = Interp(c, law=True)
            return tr.run(it), it, rf.run(Interp(c, law=False))
        for ctx, (outs, it, rouf) in regions([], body):
            cc.regions += 1
            r, _ = feasible(ctx)
            if r == 'unsat':
                continue
            cc.vacuous += r == 'sat'
            for b in hygiene(it.used):
                cc.hyg.append((site, b))
            (w2, rout), = rouf
            for lab, y in rout.items():
                for i, want in enumerate(flat(y)):
                    s = 0
                    for w, out in outs:
                        s = E.add(s, E.mul(w, flat(out[lab])[i]))
                    ok, m = smt.prove_eq(ctx, s, want)
                    cc.vcs += 1
                    if not ok:
                        cc.candidate(site, f'expected {lab} is wrong', 'expectation',
                                     {'pid': pid, 'idx': idx, 'mix': True, 'label': lab, 'inputs': model_data(m, syms, inputs)})
                        return
        cc.sample(f'{site}: {len(outs)} outcomes')
    return site, job, 'expectation', {'pid': pid, 'idx': idx, 'mix': True, 'label': None, 'inputs': {}}


def run(c, explanation, level='bounded', filt=None):
    jobs = []
    for i, t in enumerate(sde_ids.IDENTS.get(c.pid, [])):
        if c.quick and i >= sde_ids.THOROUGH_FROM.get(c.pid, 10 ** 9):
            continue
        jobs.append(ident_job(c.pid, i))
    for i, t in enumerate(sde_ids.LAWS.get(c.pid, [])):
        jobs.append(law_job(c.pid, i))
    for i, t in enumerate(sde_ids.EXPECTS.get(c.pid, [])):
        jobs.append(expect_job(c.pid, i))
    if c.pid.startswith('X'):
        from . import exp_ids
        jobs += [mix_job(c.pid, i) for i in range(len(exp_ids.MIXES.get(c.pid, [])))]
    c.stub('jax.random.normal: independent standard normal symbols per (key path, element); split: fresh independent keys')
    c.bound('all real parameter values with the stated signs (exact real arithmetic); times are arbitrary increasing reals')
    c.jobs(jobs, procs=6, timeout=420 if c.quick else 840)
    return c.finish(explanation=explanation)


def d01(c): return run(c, 'jvp of the real discretisation proved to satisfy the moment ODEs of the SDE, its initial values, '
                          'the semigroup law and the closed form')
def d02(c): return run(c, 'mean/variance/beta/stationarity identities of the SDE classes')
def d03(c): return run(c, 'conditional score equals the gradient of the exact transition log-density')
def d04(c): return run(c, 'simulated paths: mean vector and full covariance matrix over the symbolic normal draws')
def d05(c): return run(c, 'bridge drift equals drift + b^2 grad log h and reproduces the pinned-process moments')
def d06(c): return run(c, 'Euler-Maruyama law with arbitrary time-dependent coefficients')
def d07(c): return run(c, 'reverse-time simulation law')
def d08(c): return run(c, 'bridge path law, discrete-time simulation law')


# ---------------------------------------------------------------- D09 expected training losses
def gauss_moment(k):
    if k % 2:
        return 0
    r = 1
    for i in range(1, k, 2):
        r *= i
    return r


def expect(p, ids, uni=()):
    """expectation of a polynomial in independent standard normals (and uniforms on [0, 1)); None when it is not one."""
    if not isinstance(p, P):
        return p
    uni = set(uni)
    ids = set(ids) | uni
    r = 0
    for m, c in E.simp(p).t.items():
        o, f = [], 1
        for a, e in m:
            if a in ids:
                if not isinstance(e, int) or e < 0:
                    return None
                f *= Fraction(1, e + 1) if a in uni else gauss_moment(e)
            else:
                if E._deep(a) & ids:
                    return None
                o.append((a, e))
        if f:
            r = E.add(r, E.monoP(tuple(o), c * f))
    return r


def fn_args(p, name):
    out = []
    from symjax.smt import closure
    for a in closure(p.atoms() if isinstance(p, P) else set()):
        at = E.ATOMS[a]
        if at.kind == 'fn' and at.data[0] == name and at.data[1] not in out:
            out.append(at.data[1])
    return out


def loss_job(name):
    from . import losses_ids as L
    m, lt, sm, rt, n, K, shape, wr = L.CFG[name]
    inputs = L.inputs(name)
    site = name

    def job(cc):
        env = Env()
        args, syms = mkinputs(inputs)
        names = list(inputs)
        tr = Traced(lambda k, *a: L.call(env, name, k, **dict(zip(names, a))), key('k'), *[args[z] for z in names])
        hz = Traced(lambda *a: L.horizon(env, name, dict(zip(names, a))), *[args[z] for z in names])
        rf = Traced(lambda ts, *a: L.ref(env, name, [ts[i] for i in range(K)], **dict(zip(names, a))),
                    symarr('tt', (K,)), *[args[z] for z in names])
        cc.encoded(site, tr.neqns)
        data = lambda mod: {'name': name, 'inputs': model_data(mod, syms, inputs)}

        def body(c):
            it = Interp(c, law=False)
            outs = tr.run(it)
            (w, loss), = outs
            (w2, (t0, T)), = hz.run(Interp(c, law=False))
            loss = loss.a.reshape(-1)
            t0, T = t0.a.reshape(-1)[0], T.a.reshape(-1)[0]
            if len(loss) != 1:
                return it, None, None, None, None, 'the loss is not a scalar'
            loss = loss[0]
            us = [d[1] for d in it.draws if d[0] == 'uniform']
            us = list(dict.fromkeys(us))
            why = None
            ts = None
            if rt:
                ts = []
                for a in fn_args(loss, 'A'):
                    if not any(E.canon(E.sub(a, b)) == 0 for b in ts):
                        ts.append(a)
                # order them
                order = []
                for a in ts:
                    pos = 0
                    while pos < len(order) and c.branch(('<', E.sub(order[pos], a))):
                        pos += 1
                    order.insert(pos, a)
                ts = order
                if any(c.decide(('==', E.sub(a, b))) is True for a, b in zip(ts, ts[1:])):
                    return it, None, None, None, None, None      # two independent uniform times coincide: probability 0
                if len(ts) != K:
                    why = f'the network is evaluated at {len(ts)} distinct times, expected {K}'
                else:
                    why = time_law(c, ts, us, t0, T)
                if not why:
                    # rename: k-th time = t0 + g_1 + ... + g_k
                    env, pt, new = {}, t0, []
                    for k, t in enumerate(ts[:-1]):
                        pt = E.add(pt, E.sym(f'g{k}', True))
                        co, rest = E.linear_coeffs(t, us)
                        u, a = next((u, a) for u, a in zip(us, co) if isinstance(a, P) or a != 0)
                        env[u] = E.div(E.sub(pt, rest), a)
                        new.append(pt)
                    loss = E.substP(loss, env)
                    ts = new + [ts[-1]]
            else:
                if us:
                    why = 'unexpected uniform draws'
                ts = [E.add(t0, E.mul(E.sub(T, t0), Fraction(k + 1, K))) for k in range(K)]
            if why:
                return it, loss, None, None, None, why
            (w3, rv), = rf.run(Interp(c, law=False), [arr(ts)] + [x for z in names for x in [args[z]]])
            return it, loss, rv.a.reshape(-1)[0], ts, us, None

        for ctx, (it, loss, rv, ts, us, why) in regions([], body):
            if loss is None and not why:
                continue
            cc.regions += 1
            r, _ = feasible(ctx)
            if r == 'unsat':
                continue
            cc.vacuous += r == 'sat'
            for b in hygiene(it.used):
                cc.hyg.append((site, b))
            if why:
                cc.candidate(site, why, 'loss', data(None))
                return
            zs = list(dict.fromkeys(d[1] for d in it.draws if d[0] == 'normal'))
            got = expect(loss, zs)
            if got is None:
                cc.candidate(site, 'the loss is not polynomial in the Gaussian draws', 'loss', data(None))
                return
            ok, mod = smt.prove_eq(ctx, got, rv)
            cc.vcs += 1
            if not ok:
                cc.candidate(site, 'the expected loss is not the denoising objective', 'loss', data(mod))
                return
        cc.sample(f'{site}: expectation over {len(zs)} normal draws, {len(us)} random times')
    return site, job, 'loss', {'name': name, 'inputs': {}}


def time_law(c, ts, us, t0, T):
    """ts sorted: all but the last i.i.d. uniform on (t0 + small, T), the last one T."""
    if E.canon(E.sub(ts[-1], T)) != 0:
        return 'the last training time is not T'
    left = set(us)
    for t in ts[:-1]:
        co = E.linear_coeffs(t, us) if isinstance(t, P) else None
        if co is None:
            return 'a training time is not affine in a uniform draw'
        nz = [u for u, a in zip(us, co[0]) if isinstance(a, P) or a != 0]
        if len(nz) != 1 or nz[0] not in left:
            return 'the training times are not independent uniforms'
        left.discard(nz[0])
        a = co[0][us.index(nz[0])]
        lo = E.sub(co[1], t0)
        hi = E.canon(E.sub(E.add(a, co[1]), T))
        if isinstance(E.canon(lo), P) or not 0 <= E.canon(lo) <= 1e-3 or hi != 0:
            if c.branch(('>', a)) or E.canon(E.sub(co[1], T)) != 0:
                return 'the training times do not range over [t0, T]'
    return None


def d09(c):
    from . import losses_ids as L
    c.stub('jax.random.normal/uniform/split: independent symbols per (key path, element); sort of uniforms by case split')
    c.bound('network A(t)x+B(t) with arbitrary A, B; 1-3 samples, 1-3 training times, states of 1-2 entries; all model '
            'parameters (a, b, beta, c, z, t0 < T) symbolic')
    c.assume('random times: horizon of length one (rates are symbolic), random times may keep up to 1e-3 away from t0')
    c.assume('score network affine in x (the objective is quadratic in the network, so this separates the terms)')
    c.jobs([loss_job(n) for n in L.CFG], procs=7, timeout=420 if c.quick else 840)
    return c.finish(explanation='expectation of the real loss over its symbolic Gaussian draws, given the training times, '
                                'equals the denoising / IPF objective; training times proved uniform and ordered')


def d10(c): return run(c, 'expected IPF losses over the symbolic Gaussian draws; the vectorised loss equals the looped one '
                          'draw by draw for arbitrary networks')


def d11(c):
    c.stub('eigh: orthogonal eigendecomposition; 2x2 covariances are parametrised by eigenvalues and a rational rotation')
    return run(c, 'closed-form bridge: endpoint marginals, moment ODEs, gradient drift and the Brownian reciprocal class')


def d12(c):
    c.stub('eigh / expm: contract stubs (closed forms for the parametrised families)')
    return run(c, 'Gaussian KL, Bures distance, matrix square root and LTI discretisation against closed forms')
