"""Network wrappers, embedding, optimiser kernels, toy data: identities of nn_ids.py plus two specific deciders."""
import math
from symjax.harness import *
from symjax import zexec as Zx
from symjax.smt import z3
from . import sde, nn_ids


def n05(c): return sde.run(c, 'standardised data have mean zero and unit variance for every data set; reshape keeps the entries')


def n07(c):
    c.bound('psi symbolic; xi in {1, 1/4, 4} (a square root is taken of it in python); meshes 2x3 and 3x2 with symbolic spacing')
    return sde.run(c, 'joint law of the sampler, densities, score and mesh-normalised posterior of the Crescent model')


def n10(c):
    c.bound('two-layer polynomial networks with 17 and 20 symbolic parameters')
    return sde.run(c, 'wrapped forward passes against the network written out on the flat parameter vector')


# ---------------------------------------------------------------- N08 sinusoidal embedding
def phase(P_, t):
    """x = sin(c t + phi): (c, phi) as floats from the symbolic sine or cosine"""
    if not isinstance(P_, P):
        return (0., math.asin(float(P_))) if abs(float(P_)) <= 1 else None
    if len(P_.t) != 1:
        return None
    (m, co), = P_.t.items()
    if len(m) != 1 or m[0][1] != 1 or abs(co) != 1:
        return None
    at = E.ATOMS[m[0][0]]
    if at.kind != 'fn' or at.data[0] not in ('sin', 'cos'):
        return None
    lc = E.linear_coeffs(at.data[1], [next(iter(t.atoms()))])
    if lc is None:
        return None
    c, b = (E.subst_num(z, {}) if isinstance(z, P) else float(z) for z in (lc[0][0], lc[1]))
    phi = b + (math.pi / 2 if at.data[0] == 'cos' else 0) + (math.pi if co < 0 else 0)
    return c, phi


EMB = [(2, 10000), (4, 10000), (6, 100), (8, 10000), (32, 10000), (64, 10000), (128, 10000), (16, 1)]
TOL = 1e-9


def freq(k, half, mp):
    return mp ** (-k / (half - 1)) if half > 1 else 1.


def emb_job(out_dim, mp):
    site = f'sinusoidal_embedding/{out_dim}/{mp}'

    def job(cc):
        from fbs.nn import sinusoidal_embedding as emb
        t = symarr('t', ())
        tr = Traced(lambda t_: emb(t_, out_dim=out_dim, max_period=mp), t)
        cc.encoded(site, tr.neqns)
        bad = lambda what, tv: cc.candidate(site, what, 'embedding', {'out_dim': out_dim, 'mp': mp, 't': tv})
        for ctx, outs in regions([], lambda c: tr.run(Interp(c, law=False))):
            cc.regions += 1
            (w, o), = outs
            if o.a.shape != (out_dim,):
                return bad(f'shape {o.a.shape}', 1.)
            half = out_dim // 2
            tt, d = z3.Real('t'), z3.Real('d')
            for i, x in enumerate(o.a.reshape(-1)):
                ph = phase(x, t.a.reshape(-1)[0])
                if ph is None:
                    raise SymError(f'entry {i} is not a sine or cosine of a multiple of the time: {E.show(x)}')
                c_, phi = ph
                if c_ < 0:        # sin(-ct + phi) = sin(ct + pi - phi)
                    c_, phi = -c_, math.pi - phi
                want = 0. if i < half else math.pi / 2
                dphi = (phi - want + math.pi) % (2 * math.pi) - math.pi
                r = freq(i % half, half, mp)
                q = lambda v: z3.RealVal(str(Fraction(v)))
                # the sine is 1-Lipschitz: entries agree when the arguments do, uniformly over |t| <= 1e5
                s = z3.Solver()
                s.add(tt >= -100000, tt <= 100000)
                s.add(z3.Or((q(c_) - q(r)) * tt + q(dphi) > q(1e-7), (q(c_) - q(r)) * tt + q(dphi) < -q(1e-7)))
                res = STATS_check(s)
                cc.vcs += 1
                if res == 'sat':
                    v = s.model()[tt]
                    return bad(f'entry {i} is sin({c_:.6g} t + {phi:.4g}), expected sin({r:.6g} t + {want:.4g})',
                               1.3)
                if res != 'unsat':
                    raise Inconclusive('solver answered unknown')
            cc.vacuous += 1
        cc.sample(f'{site}: {out_dim} entries, |t| <= 1e5')
    return site, job, 'embedding', {'out_dim': out_dim, 'mp': mp, 't': 1.3}


def STATS_check(s):
    import time
    t0 = time.time()
    r = str(s.check())
    STATS.queries += 1
    STATS.time += time.time() - t0
    setattr(STATS, r, getattr(STATS, r) + 1)
    return r


def odd_job():
    site = 'sinusoidal_embedding/odd dimension'

    def job(cc):
        from fbs.nn import sinusoidal_embedding as emb
        for n in (1, 3, 63):
            cc.vcs += 1
            try:
                jax.eval_shape(lambda t: emb(t, out_dim=n), jax.ShapeDtypeStruct((), jnp.float64))
            except NotImplementedError:
                continue
            cc.candidate(site, f'out_dim={n} is accepted', 'embedding', {'out_dim': n, 'mp': 10000, 't': 1.3})
            return
    return site, job, 'embedding', {'out_dim': 3, 'mp': 10000, 't': 1.3}


def n08(c):
    c.bound('output dimensions 2 to 128, times up to 1e5 in size')
    c.assume('agreement up to 1e-7 in the argument of each sine (the frequencies are float constants)')
    c.jobs([emb_job(*e) for e in EMB] + [odd_job()], procs=6, timeout=400)
    return c.finish(explanation='every entry of the embedding is the stated sine or cosine for all times')


# ---------------------------------------------------------------- N11 optimiser step and moving average
class Fork(Exception):
    pass


class ForkInt:
    """a symbolic integer that forks on comparisons (used as the python ints of the moving-average schedule)"""

    def __init__(self, ex, v):
        self.ex, self.v = ex, v

    def _w(self, o):
        return o.v if isinstance(o, ForkInt) else o

    def __lt__(self, o): return self.ex.cond(self.v < self._w(o))
    def __le__(self, o): return self.ex.cond(self.v <= self._w(o))
    def __gt__(self, o): return self.ex.cond(self.v > self._w(o))
    def __ge__(self, o): return self.ex.cond(self.v >= self._w(o))
    def __eq__(self, o): return self.ex.cond(self.v == self._w(o))
    def __ne__(self, o): return self.ex.cond(self.v != self._w(o))
    def __bool__(self): return bool(self.ex.cond(self.v != 0))
    def __mod__(self, o): return ForkInt(self.ex, self.v % self._w(o))
    def __rmod__(self, o): return ForkInt(self.ex, o % self.v)
    def __floordiv__(self, o): return ForkInt(self.ex, self.v / self._w(o))
    def __add__(self, o): return ForkInt(self.ex, self.v + self._w(o))
    def __radd__(self, o): return ForkInt(self.ex, self.v + o)
    def __sub__(self, o): return ForkInt(self.ex, self.v - self._w(o))
    def __rsub__(self, o): return ForkInt(self.ex, o - self.v)
    def __mul__(self, o): return ForkInt(self.ex, self.v * self._w(o))
    __rmul__ = __mul__
    def __neg__(self): return ForkInt(self.ex, -self.v)
    def __divmod__(self, o): return self // o, self % o
    __hash__ = object.__hash__


class ForkBool:
    def __init__(self, ex, c):
        self.ex, self.c = ex, c

    def __bool__(self): return self.ex.branch(self.c)
    def __and__(self, o): return ForkBool(self.ex, z3.And(self.c, o.c if isinstance(o, ForkBool) else bool(o)))
    def __or__(self, o): return ForkBool(self.ex, z3.Or(self.c, o.c if isinstance(o, ForkBool) else bool(o)))
    __rand__, __ror__ = __and__, __or__
    def __invert__(self): return ForkBool(self.ex, z3.Not(self.c))


class Forker:
    def __init__(self, asm):
        self.asm = asm

    def cond(self, c):
        return ForkBool(self, c)

    def branch(self, c):
        if self.i < len(self.dec):
            b = self.dec[self.i]
        else:
            b = self.feas(c)
            if b and self.feas(z3.Not(c)):
                self.todo.append(self.dec + [False])
            self.dec.append(b)
        self.i += 1
        self.pc.append(c if b else z3.Not(c))
        return b

    def feas(self, c):
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*self.asm, *self.pc, c)
        r = STATS_check(s)
        if r == 'unknown':
            raise Inconclusive('solver answered unknown on a branch')
        return r == 'sat'

    def paths(self, body):
        self.todo = [[]]
        while self.todo:
            self.dec, self.i, self.pc = list(self.todo.pop()), 0, []
            yield body(), list(self.pc)


def ema_job(decay):
    site = f'ema_kernel/decay={decay}'
    data = lambda n, s, e: {'decay': decay, 'count': n, 'start': s, 'every': e}

    def job(cc):
        from fbs.nn.utils import make_optax_kernel
        import optax
        _, ema = make_optax_kernel(optax.sgd(.1), lambda q: jnp.sum(q), jit=True)
        n, s, e = z3.Ints('count count_start count_every')
        asm = [n >= 0, s >= 0, e >= 1]
        fk = Forker(asm)
        sh = jax.ShapeDtypeStruct((2,), jnp.float64)

        def body():
            cs = [ForkInt(fk, v) for v in (n, s, e)]
            closed = jax.make_jaxpr(lambda a, b: ema(a, b, *cs, decay))(sh, sh)
            cc.encoded(site, count_eqns(closed.jaxpr))
            ex = Zx.ZExec()
            a, b = Zx.symreal('ema', (2,)), Zx.symreal('par', (2,))
            o, = ex.run(closed, [a, b])
            return o, a, b
        for (o, a, b), pc in fk.paths(body):
            cc.regions += 1
            d = Zx.real(Fraction(str(decay)))
            for i in range(2):
                want = z3.If(n < s, b[i], z3.If(n % e == 0, d * a[i] + (1 - d) * b[i], a[i]))
                sv = z3.Solver()
                sv.set('timeout', 60000)
                sv.add(*asm, *pc, Zx.real(o[i]) != want)
                r = STATS_check(sv)
                cc.vcs += 1
                if r == 'unknown':
                    raise Inconclusive('solver answered unknown')
                if r == 'sat':
                    m = sv.model()
                    g = lambda v: m.eval(v, model_completion=True).as_long()
                    cc.candidate(site, f'count={g(n)}, count_start={g(s)}, count_every={g(e)}: wrong average', 'ema',
                                 data(g(n), g(s), g(e)))
                    return
            cc.vacuous += 1
        cc.sample(f'{site}: all counts, starting counts and periods')
    return site, job, 'ema', data(0, 0, 1)


def n11(c):
    c.bound('counters are arbitrary non-negative integers, periods positive; decays 0, 0.5, 0.875, 1; quadratic/cubic losses of two '
            'parameters; plain, momentum and weight-decay gradient descent')
    c.jobs([sde.ident_job('N11', i) for i in range(len(sde.sde_ids.IDENTS['N11']))] +
           [ema_job(d) for d in (0., .5, .875, 1.)], procs=6, timeout=400)
    return c.finish(explanation='the training step is one optimiser step on the loss gradient; the moving average follows its schedule')
