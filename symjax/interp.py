"""Symbolic interpreter for jaxprs (the IR jax builds from the real functions).

Execution is path based: booleans and integers are concrete on each path, floating point values are symbolic reals
(expr.P).  A frontier of states is advanced one equation at a time.  A state forks
  * on discrete random draws (one successor per outcome, weight = its probability),
  * on comparisons of a law-mode uniform draw with a threshold (weight = interval length),
and states that agree on all live values are merged by adding their weights.  Comparisons between parameters are
decided by the solver under the region condition; an undecided one raises Split and the driver explores both regions.
"""
import itertools
import math
from fractions import Fraction
import numpy as np
import jax
import jax.numpy as jnp
from jax import core
from . import expr as E
from .expr import P, SymError
from .smt import Split
from . import rng

NAN, INF = E.NAN, E.INF


class KeyE:
    __slots__ = ('path', 'half', '_h')

    def __init__(self, path, half):
        self.path, self.half = path, half
        self._h = hash((path, half))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, KeyE) and self.half == o.half and self.path == o.path

    def __repr__(self):
        return f'K{self.path}.{self.half}'


class SArr:
    __slots__ = ('a', 'id', 'dtype', 'unifs', 'conc')


_ARRS = {}


def sarr(a, dtype):
    """intern an object ndarray."""
    dtype = np.dtype(dtype)
    if not isinstance(a, np.ndarray):
        a = obj_scalar(a)
    key = (a.shape, dtype, tuple(a.ravel().tolist()) if a.dtype == object else (a.tobytes(),))
    # 1 == True == Fraction(1) hash-collide harmlessly inside one dtype
    r = _ARRS.get(key)
    if r is None:
        r = SArr()
        r.a = a
        r.id = len(_ARRS)
        r.dtype = dtype
        u = frozenset()
        conc = True
        for x in a.ravel():
            if isinstance(x, P):
                conc = False
                if x.unifs():
                    u |= x.unifs()
            elif isinstance(x, KeyE):
                conc = False
        r.unifs = u
        r.conc = conc
        _ARRS[key] = r
    return r


def reset_intern():
    _ARRS.clear()
    _STRUCT.clear()


# ------------------------------------------------------------------ float constants
_KNOWN = []


def _build_known():
    vals = []
    for k in range(2, 65):
        vals.append((math.log(k), lambda k=k: E.log(k)))
        r = math.isqrt(k)
        if r * r != k:
            vals.append((math.sqrt(k), lambda k=k: E.power(k, Fraction(1, 2))))
    for k in (100, 1000, 10000, 784, 1024, 128, 256, 512):
        vals.append((math.log(k), lambda k=k: E.log(k)))
    vals.append((math.pi, lambda: E.pi()))
    vals.append((math.log(2 * math.pi), lambda: E.add(E.log(2), E.log(E.pi()))))
    vals.append((math.log(math.pi), lambda: E.log(E.pi())))
    vals.append((math.sqrt(math.pi), lambda: E.power(E.pi(), Fraction(1, 2))))
    vals.append((math.sqrt(2 * math.pi), lambda: E.power(E.mul(2, E.pi()), Fraction(1, 2))))
    vals.append((math.e, lambda: E.exp(1)))
    return vals


def ideal(x):
    """The real number a float literal stands for."""
    x = float(x)
    if x != x or x in (INF, -INF):
        return x
    if x == int(x) and abs(x) < 2 ** 53:
        return int(x)
    f = Fraction(x)
    if f.denominator <= 4096:
        return f
    g = f.limit_denominator(10000)
    if abs(g - f) <= abs(f) * Fraction(1, 2 ** 50) and abs(f) > Fraction(1, 10 ** 4):
        return g
    global _KNOWN
    if not _KNOWN:
        _KNOWN = _build_known()
    for v, mk in _KNOWN:
        q = x / v
        gq = Fraction(q).limit_denominator(64)
        if gq != 0 and abs(float(gq) * v - x) <= abs(x) * 2e-15:
            return E.mul(gq, mk())
    # decimal literal
    d = Fraction(repr(x))
    return d


def conc_to_sarr(x):
    x = np.asarray(x)
    if x.dtype == jax.dtypes.float0:
        return sarr(np.zeros(x.shape, object), np.dtype('int32'))
    o = np.empty(x.shape, object)
    fo, fx = o.reshape(-1), x.reshape(-1)
    if np.issubdtype(x.dtype, np.floating) or str(x.dtype) == 'bfloat16':
        if x.dtype == np.float32:
            conv = lambda z: ideal(float(str(z)))
        else:
            conv = ideal
    elif x.dtype == bool:
        conv = bool
    elif np.issubdtype(x.dtype, np.integer):
        conv = int
    elif np.issubdtype(x.dtype, np.complexfloating):
        raise SymError('complex constant')
    else:
        raise SymError(f'constant of dtype {x.dtype}')
    for i in range(fx.size):
        fo[i] = conv(fx[i])
    return sarr(fo.reshape(x.shape), x.dtype)


def obj(shape, vals, dtype):
    o = np.empty(len(vals), object)
    for i, v in enumerate(vals):
        o[i] = v
    return sarr(o.reshape(shape), dtype)


# ------------------------------------------------------------------ state
class State:
    __slots__ = ('frames', 'w', 'us')

    def __init__(self, frames, w, us):
        self.frames, self.w, self.us = frames, w, us

    def fork(self, w, us):
        return State([dict(f) for f in self.frames], w, us)


class Interp:
    def __init__(self, ctx, law=True, merge=True, max_states=400000, deadline=None):
        self.ctx = ctx
        self.law = law                # uniforms are weighted intervals (True) or plain symbols in (0,1) (False)
        self.merge = merge
        self.max_states = max_states
        self.path = []
        self.used = {}                # key path -> {draw point: description}
        self.draws = []               # log of symbolic draws: (kind, atom id, key path)
        self.peak = 1
        self.prims = set()
        self.neqns = 0
        self.unif_assume = []
        self.deadline = deadline

    # -------------------------------------------------- driver
    def run(self, closed, args):
        """closed: ClosedJaxpr; args: list of SArr. Returns list of (weight, [SArr outputs])."""
        st = State([], 1, {})
        out = self.call(closed.jaxpr, [conc_to_sarr(c) if not isinstance(c, SArr) else c for c in closed.consts],
                        [(st, list(args))])
        res = []
        for st, outs in out:
            w = st.w
            for uid, (lo, hi) in st.us.items():
                w = E.mul(w, E.sub(hi, lo))
            res.append((w, outs))
        return res

    def call(self, jaxpr, consts, items):
        """items: list of (state, args). Pushes a frame, runs the equations, pops; returns list of (state, outs)."""
        states = []
        last = last_use(jaxpr)
        for st, args in items:
            fr = {}
            for v, c in zip(jaxpr.constvars, consts):
                if v in last:
                    fr[v] = c
            for v, a in zip(jaxpr.invars, args):
                if v in last:
                    fr[v] = a
            st.frames.append(fr)
            states.append(st)
        if len(states) > 1:
            states = self.merged(states)
        for i, eqn in enumerate(jaxpr.eqns):
            self.path.append(i)
            states = self.step(eqn, states, last, i)
            self.path.pop()
        out = []
        for st in states:
            fr = st.frames[-1]
            outs = [self.read(fr, v) for v in jaxpr.outvars]
            st.frames.pop()
            out.append((st, outs))
        return out

    @staticmethod
    def read(fr, v):
        if isinstance(v, core.Literal):
            return lit(v)
        return fr[v]

    # -------------------------------------------------- merging
    def merged(self, states):
        if not self.merge or len(states) < 2:
            return states
        d = {}
        for st in states:
            k = tuple([a.id for f in st.frames for a in f.values()])
            if st.us:
                k = (k, tuple(sorted(((u, b) for u, b in st.us.items()), key=lambda z: z[0])))
            o = d.get(k)
            if o is None:
                d[k] = st
            else:
                o.w = E.add(o.w, st.w)
        if len(d) == len(states):
            return states
        out = []
        for st in d.values():
            if isinstance(st.w, P):
                st.w = E.simp(st.w)
            if isinstance(st.w, P) or st.w != 0:
                out.append(st)
        return out

    def purge_us(self, states):
        for st in states:
            if st.us:
                live = set()
                for f in st.frames:
                    for a in f.values():
                        if a.unifs:
                            live |= a.unifs
                for u in [u for u in st.us if u not in live]:
                    lo, hi = st.us.pop(u)
                    st.w = E.mul(st.w, E.sub(hi, lo))

    # -------------------------------------------------- one equation
    def step(self, eqn, states, last, idx):
        import time
        self.neqns += 1
        if self.deadline and time.time() > self.deadline:
            raise SymError('time budget of the symbolic execution exceeded')
        prim = eqn.primitive
        self.prims.add(prim.name)
        dead = [v for v in eqn.invars if not isinstance(v, core.Literal) and last.get(v) == idx]
        items = []
        for st in states:
            fr = st.frames[-1]
            ins = [self.read(fr, v) for v in eqn.invars]
            for v in dead:
                fr.pop(v, None)
            items.append((st, ins))
        name = prim.name
        h = HIGHER.get(name)
        if h is not None:
            out = h(self, eqn, items)
        else:
            f = FORK.get(name)
            if f is not None:
                out = []
                for st, ins in items:
                    out.extend(f(self, eqn, st, ins))
            else:
                d = DET.get(name)
                if d is None:
                    d = default_rule(name)
                memo = {}
                out = []
                for st, ins in items:
                    k = tuple([a.id for a in ins])
                    o = memo.get(k)
                    if o is None:
                        o = d(eqn, ins)
                        if isinstance(o, SArr):
                            o = [o]
                        memo[k] = o
                    out.append((st, o))
        res = []
        ovs = [(k, v) for k, v in enumerate(eqn.outvars)
               if not isinstance(v, core.DropVar) and v in last]
        for st, outs in out:
            fr = st.frames[-1]
            for k, v in ovs:
                fr[v] = outs[k]
            res.append(st)
        if any(st.us for st in res):
            self.purge_us(res)
        if len(res) > 1:
            res = self.merged(res)
        if len(res) > self.max_states:
            raise SymError(f'frontier exceeds {self.max_states} states at {name}')
        if len(res) > self.peak:
            self.peak = len(res)
        return res

    # -------------------------------------------------- comparisons
    def compare(self, op, a, b, us):
        """op in < <= == !=. Returns list of (bool, us') ; us' may equal us."""
        if isinstance(a, float) or isinstance(b, float):
            if not isinstance(a, P) and not isinstance(b, P) or E.isnonfinite(a) or E.isnonfinite(b):
                fa = 0.0 if isinstance(a, P) else a
                fb = 0.0 if isinstance(b, P) else b
                return [({'<': fa < fb, '<=': fa <= fb, '==': fa == fb, '!=': fa != fb}[op], us)]
        if not isinstance(a, P) and not isinstance(b, P):
            return [({'<': a < b, '<=': a <= b, '==': a == b, '!=': a != b}[op], us)]
        d = E.sub(a, b)
        if not isinstance(d, P):
            return [({'<': d < 0, '<=': d <= 0, '==': d == 0, '!=': d != 0}[op], us)]
        u = d.unifs()
        if not u or not self.law:
            return [(self.ctx.branch((op, d)), us)]
        if op in ('==', '!='):
            return [(op == '!=', us)]        # a continuous draw hits a point with probability zero
        if len(u) > 1:
            raise SymError('comparison involving several uniform draws')
        (uid,) = u
        below, theta = solve_uniform(self.ctx, d, uid)
        # condition d < 0 (or <=, same up to measure zero)  <=>  (u < theta if below else u > theta)
        lo, hi = us[uid]
        c_lo = self.ctx.branch(('<=', E.sub(theta, lo)))
        if c_lo:
            return [(not below, us)]
        c_hi = self.ctx.branch(('>=', E.sub(theta, hi)))
        if c_hi:
            return [(below, us)]
        u1 = dict(us); u1[uid] = (lo, theta)
        u2 = dict(us); u2[uid] = (theta, hi)
        return [(below, u1), (not below, u2)]


def solve_uniform(ctx, d, uid):
    """d(u) < 0 with d affine in u or in log u. Returns (below, theta): d<0 iff u<theta (below) or u>theta."""
    coef, rest = 0, 0
    lcoef = 0
    for m, c in d.t.items():
        dm = dict(m)
        e = dm.pop(uid, None)
        if e is not None:
            if e != 1 or any(uid in E.ATOMS[a].unifs for a in dm):
                raise SymError('nonlinear use of a uniform draw in a comparison')
            coef = E.add(coef, E.monoP(tuple(sorted(dm.items())), c))
            continue
        la = [a for a in dm if uid in E.ATOMS[a].unifs]
        if la:
            at = E.ATOMS[la[0]]
            if len(la) == 1 and at.kind == 'log' and dm[la[0]] == 1 and isinstance(at.data, P) \
                    and at.data == P({((uid, 1),): 1}):
                dm.pop(la[0])
                lcoef = E.add(lcoef, E.monoP(tuple(sorted(dm.items())), c))
                continue
            raise SymError('uniform draw inside an opaque function in a comparison')
        rest = E.add(rest, E.monoP(m, c))
    if (isinstance(lcoef, P) or lcoef != 0):
        if isinstance(coef, P) or coef != 0:
            raise SymError('mixed use of a uniform draw')
        pos = ctx.branch(('>', lcoef))
        return pos, E.exp(E.div(E.neg(rest), lcoef))
    pos = ctx.branch(('>', coef))
    if not pos and ctx.branch(('==', coef)):
        raise SymError('degenerate uniform comparison')
    return pos, E.simp(E.div(E.neg(rest), coef))


_LAST = {}


def last_use(jaxpr):
    r = _LAST.get(id(jaxpr))
    if r is not None and r[0] is jaxpr:
        return r[1]
    last = {}
    for i, e in enumerate(jaxpr.eqns):
        for v in e.invars:
            if not isinstance(v, core.Literal):
                last[v] = i
    for v in jaxpr.outvars:
        if not isinstance(v, core.Literal):
            last[v] = 10 ** 9
    _LAST[id(jaxpr)] = (jaxpr, last)
    return last


_LITS = {}


def lit(v):
    r = _LITS.get(id(v))
    if r is None or r[0] is not v:
        r = (v, conc_to_sarr(np.asarray(v.val, dtype=v.aval.dtype)))
        _LITS[id(v)] = r
    # the intern table may have been reset
    return sarr(r[1].a, r[1].dtype)


# ================================================================== higher order
HIGHER = {}


def _inner_call(getj):
    def h(self, eqn, items):
        j, consts = getj(eqn)
        return self.call(j, consts, items)
    return h


def _closed(cj):
    return cj.jaxpr, [conc_to_sarr(c) for c in cj.consts]


HIGHER['pjit'] = _inner_call(lambda e: _closed(e.params['jaxpr']))
HIGHER['closed_call'] = _inner_call(lambda e: _closed(e.params['call_jaxpr']))
HIGHER['core_closed_call'] = HIGHER['closed_call']
HIGHER['custom_jvp_call'] = _inner_call(lambda e: _closed(e.params['call_jaxpr']))
HIGHER['custom_vjp_call_jaxpr'] = _inner_call(lambda e: _closed(e.params['fun_jaxpr']))
HIGHER['custom_vjp_call'] = _inner_call(lambda e: _closed(e.params['call_jaxpr']))
HIGHER['remat'] = _inner_call(lambda e: (e.params['jaxpr'], []))
HIGHER['checkpoint'] = HIGHER['remat']
HIGHER['remat2'] = HIGHER['remat']
HIGHER['core_call'] = _inner_call(lambda e: (e.params['call_jaxpr'], []))
HIGHER['xla_call'] = HIGHER['core_call']


def h_cond(self, eqn, items):
    br = eqn.params['branches']
    groups = {}
    for st, ins in items:
        i = scalar_int(ins[0])
        i = min(max(int(i), 0), len(br) - 1)
        groups.setdefault(i, []).append((st, ins[1:]))
    out = []
    for i, its in groups.items():
        self.path.append(('br', i))
        j, c = _closed(br[i])
        out += self.call(j, c, its)
        self.path.pop()
    return out


HIGHER['cond'] = h_cond


def scalar_int(a):
    x = a.a.reshape(-1)[0]
    if isinstance(x, P):
        raise SymError('symbolic control index')
    return int(x)


def h_while(self, eqn, items):
    p = eqn.params
    cj, bj = p['cond_jaxpr'], p['body_jaxpr']
    nc, nb = p['cond_nconsts'], p['body_nconsts']
    cjx, cc = _closed(cj)
    bjx, bc = _closed(bj)
    done = []
    # keep the loop constants on the state through a pseudo frame
    live = [(st, ins[:nc], ins[nc:nc + nb], ins[nc + nb:]) for st, ins in items]
    it = 0
    while live:
        it += 1
        if it > 5000:
            raise SymError('while loop bound exceeded')
        self.path.append(('w', it))
        pend = []
        for st, c, b, x in live:
            st.frames.append({('c', k): v for k, v in enumerate(c)} | {('b', k): v for k, v in enumerate(b)}
                             | {('x', k): v for k, v in enumerate(x)})
            pend.append((st, list(c) + list(x)))
        res = self.call(cjx, cc, pend)
        go = []
        for st, outs in res:
            fr = st.frames.pop()
            c = [fr[('c', k)] for k in range(nc)]
            b = [fr[('b', k)] for k in range(nb)]
            x = [fr[('x', k)] for k in range(len(live[0][3]))]
            v = outs[0].a.reshape(-1)[0]
            if v:
                st.frames.append({('c', k): z for k, z in enumerate(c)} | {('b', k): z for k, z in enumerate(b)})
                go.append((st, b + x))
            else:
                done.append((st, x))
        live = []
        if go:
            for st, outs in self.call(bjx, bc, go):
                fr = st.frames.pop()
                live.append((st, [fr[('c', k)] for k in range(nc)], [fr[('b', k)] for k in range(nb)], outs))
        self.path.pop()
    return done


HIGHER['while'] = h_while


def h_scan(self, eqn, items):
    p = eqn.params
    cj = p['jaxpr']
    nc, ncar, length, rev = p['num_consts'], p['num_carry'], p['length'], p['reverse']
    jx, cc = _closed(cj)
    nxs = len(eqn.invars) - nc - ncar
    nys = len(cj.out_avals) - ncar
    last = last_use(jx)
    cur = []
    for st, ins in items:
        fr = {('c', k): v for k, v in enumerate(ins[:nc])}
        fr.update({('x', k): v for k, v in enumerate(ins[nc + ncar:])})
        st.frames.append(fr)
        cur.append((st, ins[nc:nc + ncar]))
    order = range(length - 1, -1, -1) if rev else range(length)
    # xs are consumed slice by slice so that states can merge once a slice is dead
    for st, _ in cur:
        fr = st.frames[-1]
        for k in range(nxs):
            x = fr.pop(('x', k))
            if jx.invars[nc + ncar + k] in last:
                for i in range(length):
                    fr[('x', k, i)] = sarr(x.a[i], x.dtype)
    ys_dead = [isinstance(eqn.outvars[ncar + k], core.DropVar) for k in range(nys)]
    for i in order:
        self.path.append(('s', i))
        its = []
        for st, car in cur:
            fr = st.frames[-1]
            c = [fr[('c', k)] for k in range(nc)]
            xs = [fr.pop(('x', k, i), None) for k in range(nxs)]
            its.append((st, c + list(car) + xs))
        cur = []
        for st, outs in self.call(jx, cc, its):
            fr = st.frames[-1]
            for k in range(nys):
                if not ys_dead[k]:
                    fr[('y', k, i)] = outs[ncar + k]
            cur.append((st, outs[:ncar]))
        # merge at the loop head
        if len(cur) > 1 and self.merge:
            for st, car in cur:
                st.frames.append({('car', k): v for k, v in enumerate(car)})
            sts = self.merged([st for st, _ in cur])
            self.purge_us(sts)
            cur = []
            for st in sts:
                fr = st.frames.pop()
                cur.append((st, [fr[('car', k)] for k in range(ncar)]))
        self.path.pop()
    out = []
    for st, car in cur:
        fr = st.frames.pop()
        ys = []
        for k in range(nys):
            av = eqn.outvars[ncar + k].aval
            if ys_dead[k]:
                ys.append(None)
                continue
            o = np.empty(av.shape, object)
            for i in range(length):
                o[i] = fr[('y', k, i)].a if o[i:i + 1].ndim > 1 else fr[('y', k, i)].a.reshape(-1)[0]
            ys.append(sarr(o, av.dtype))
        out.append((st, list(car) + ys))
    return out


HIGHER['scan'] = h_scan


def h_linear_solve(self, eqn, items):
    """custom_linear_solve: recover the matrix by applying matvec to symbolic input is done by interpreting `solve`
    when it is elementwise tractable; here: build A column by column from the matvec jaxpr and solve by Cramer."""
    p = eqn.params
    jx = p['jaxprs']
    cl = p['const_lengths']
    nmv, nvmv, nsol = cl.matvec, cl.vecmat, cl.solve
    out = []
    for st, ins in items:
        b = ins[len(ins) - (len(ins) - nmv - nvmv - nsol - cl.transpose_solve):]
        if len(b) != 1:
            raise SymError('linear solve with several right-hand sides')
        b = b[0]
        cm = ins[:nmv]
        n = b.a.size
        cols = []
        for k in range(n):
            e = np.zeros(n, object)
            e[k] = 1
            st2 = State([], 1, {})
            sub = Interp(self.ctx, self.law, False)
            mj, mc = _closed(jx.matvec)
            r = sub.call(mj, mc, [(st2, list(cm) + [sarr(e.reshape(b.a.shape), b.dtype)])])
            cols.append(r[0][1][0].a.ravel())
        A = np.empty((n, n), object)
        for k in range(n):
            A[:, k] = cols[k]
        x = linsolve(A, b.a.ravel())
        out.append((st, [obj(b.a.shape, list(x), b.dtype)]))
    return out


HIGHER['custom_linear_solve'] = h_linear_solve


def det(A):
    n = A.shape[0]
    if n == 1:
        return A[0, 0]
    if n == 2:
        return E.sub(E.mul(A[0, 0], A[1, 1]), E.mul(A[0, 1], A[1, 0]))
    s = 0
    for k in range(n):
        if not isinstance(A[0, k], P) and A[0, k] == 0:
            continue
        m = np.delete(np.delete(A, 0, 0), k, 1)
        t = E.mul(A[0, k], det(m))
        s = E.add(s, t) if k % 2 == 0 else E.sub(s, t)
    return s


def linsolve(A, b):
    """connected components first (block structure), then Cramer."""
    n = A.shape[0]
    nz = lambda x: isinstance(x, P) or x != 0
    comp = list(range(n))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i
    for i in range(n):
        for j in range(n):
            if nz(A[i, j]):
                comp[find(i)] = find(j)
    x = [0] * n
    for r in set(find(i) for i in range(n)):
        I = [i for i in range(n) if find(i) == r]
        S = A[np.ix_(I, I)]
        d = det(S)
        for k, i in enumerate(I):
            T = S.copy()
            for q, ii in enumerate(I):
                T[q, k] = b[ii]
            x[i] = E.div(det(T), d)
    return x


# ================================================================== forking primitives
FORK = {}


def cmp_rule(op, swap=False):
    def f(self, eqn, st, ins):
        a, b = ins
        shape = eqn.outvars[0].aval.shape
        x = np.broadcast_to(a.a, shape).ravel()
        y = np.broadcast_to(b.a, shape).ravel()
        if swap:
            x, y = y, x
        cur = [([], st.us)]
        for p_, q_ in zip(x, y):
            if isinstance(p_, KeyE) or isinstance(q_, KeyE):
                raise SymError('comparison of random keys')
            nxt = []
            for vals, us in cur:
                for v, us2 in self.compare(op, p_, q_, us):
                    nxt.append((vals + [v], us2))
            cur = nxt
        out = []
        for k, (vals, us) in enumerate(cur):
            s2 = st if len(cur) == 1 else st.fork(st.w, us)
            s2.us = dict(us) if len(cur) > 1 else us
            out.append((s2, [obj(shape, [bool(v) for v in vals], bool)]))
        return out
    return f


FORK['lt'] = cmp_rule('<')
FORK['le'] = cmp_rule('<=')
FORK['gt'] = cmp_rule('<', True)
FORK['ge'] = cmp_rule('<=', True)
FORK['eq'] = cmp_rule('==')
FORK['ne'] = cmp_rule('!=')
FORK['lt_to'] = FORK['lt']
FORK['le_to'] = FORK['le']
FORK['eq_to'] = FORK['eq']


def key_paths(k):
    kb = k.a.shape[:-1]
    flat = k.a.reshape(-1, 2)
    out = []
    for h0, h1 in flat:
        if not (isinstance(h0, KeyE) and isinstance(h1, KeyE) and h0.path == h1.path and (h0.half, h1.half) == (0, 1)):
            if isinstance(h0, int) and isinstance(h1, int):
                out.append(('const', h0, h1))
                continue
            raise SymError('random draw from something that is not an intact key')
        out.append(h0.path)
    return kb, out


def note_draw(self, paths, kind):
    pt = tuple(self.path)
    for b, p in enumerate(paths):
        self.used.setdefault(p, {})[(pt, b)] = kind


def keyarr(shape, paths):
    o = np.empty((len(paths), 2), object)
    for i, p in enumerate(paths):
        o[i, 0] = KeyE(p, 0)
        o[i, 1] = KeyE(p, 1)
    return sarr(o.reshape(*shape, 2), 'uint32')


def f_split(self, eqn, st, ins):
    kb, paths = key_paths(ins[0])
    n = eqn.params['n']
    return [(st, [keyarr(kb + (n,), [p + (('s', n, i),) for p in paths for i in range(n)])])]


def f_fold(self, eqn, st, ins):
    kb, paths = key_paths(ins[0])
    d = np.broadcast_to(ins[1].a, kb).ravel()
    return [(st, [keyarr(kb, [p + (('f', int(x)),) for p, x in zip(paths, d)])])]


def f_seed(self, eqn, st, ins):
    d = ins[1].a.ravel()
    return [(st, [keyarr(ins[0].a.shape[:-1], [(('seed', int(x)),) for x in d])])]


FORK['rng_split'] = f_split
FORK['rng_fold_in'] = f_fold
FORK['rng_seed'] = f_seed


def f_uniform(self, eqn, st, ins):
    kb, paths = key_paths(ins[0])
    note_draw(self, paths, 'uniform')
    shape = eqn.params['shape']
    n = int(np.prod(shape)) if shape else 1
    vals = []
    for p in paths:
        for i in range(n):
            if self.law:
                a = E.mk_atom('unif', (p, i, n), True, f'U{len(E.ATOMS)}')
                if a.id in st.us:
                    pass
                st.us = dict(st.us)
                st.us.setdefault(a.id, (0, 1))
            else:
                a = E.mk_atom('sym', ('u', p, i, n), True, f'u{len(E.ATOMS)}')
                self.ctx_unif(a)
            self.draws.append(('uniform', a.id, p, i))
            vals.append(E.atomP(a))
    return [(st, [obj(kb + shape, vals, 'float64')])]


def _ctx_unif(self, a):
    c = ('<', E.sub(E.atomP(a), 1))
    if c not in self.ctx.assumptions:
        self.ctx.assumptions.append(c)
        self.ctx.cache.clear()


Interp.ctx_unif = _ctx_unif
FORK['rng_uniform'] = f_uniform


def f_normal(self, eqn, st, ins):
    kb, paths = key_paths(ins[0])
    note_draw(self, paths, 'normal')
    shape = eqn.params['shape']
    n = int(np.prod(shape)) if shape else 1
    if self.normal_law is not None:
        return _fork_elements(self, st, [self.normal_law] * (n * len(paths)), kb + shape, 'float64')
    vals = []
    for p in paths:
        for i in range(n):
            a = E.mk_atom('sym', ('z', p, i, n), False, f'z{len(E.ATOMS)}')
            self.draws.append(('normal', a.id, p, i))
            vals.append(E.atomP(a))
    return [(st, [obj(kb + shape, vals, 'float64')])]


Interp.normal_law = None      # list of (value, probability): abstraction of a reference draw by a finite law


def hygiene(used):
    """keys drawn from at two places, or drawn from and also split."""
    bad = []
    for p, pts in used.items():
        if len(pts) > 1:
            bad.append((p, 'drawn from twice: ' + ', '.join(sorted(set(pts.values())))))
    ps = sorted((p for p in used if p and p[0] != 'const'), key=len)
    for p in ps:
        for q in ps:
            if len(q) > len(p) and q[:len(p)] == p:
                bad.append((p, f'drawn from ({", ".join(sorted(set(used[p].values())))}) and also split'))
                break
    return bad


FORK['rng_normal'] = f_normal


def _fork_elements(self, st, opts_list, shape, dtype):
    """opts_list: per element list of (value, prob)."""
    cur = [([], st.w)]
    for opts in opts_list:
        nxt = []
        for vals, w in cur:
            for v, pr in opts:
                nxt.append((vals + [v], E.mul(w, pr)))
        cur = nxt
        if len(cur) > self.max_states:
            raise SymError('too many outcomes of one draw')
    out = []
    for vals, w in cur:
        s2 = st if len(cur) == 1 else st.fork(w, dict(st.us))
        s2.w = w
        out.append((s2, [obj(shape, vals, dtype)]))
    return out


def f_choice(self, eqn, st, ins):
    kb, paths = key_paths(ins[0])
    note_draw(self, paths, 'choice')
    shape, n = eqn.params['shape'], eqn.params['n']
    k = int(np.prod(shape)) if shape else 1
    p = ins[1].a
    pf = np.broadcast_to(p, kb + (n,)).reshape(-1, n)
    opts_list = []
    for b, _ in enumerate(paths):
        opts = choice_probs(self.ctx, list(pf[b]))
        opts_list += [opts] * k
    return _fork_elements(self, st, opts_list, kb + shape, 'int64')


class BadProb(SymError):
    """a probability vector handed to the sampler is not a probability vector."""


def choice_probs(ctx, ps):
    if any(isinstance(x, float) for x in ps):
        raise BadProb(f'non-finite probabilities {ps}')
    ps = [E.simp(x) for x in ps]
    tot = 0
    for x in ps:
        tot = E.add(tot, x)
    tot = E.simp(tot)
    for x in ps:
        s = ctx.signs(x)
        if -1 in s:
            if s == frozenset([-1]):
                raise BadProb(f'negative probability {E.show(x, 8)}')
            # undecided: look at the negative region separately
            raise Split(('<', x))
    if not isinstance(tot, P) and tot == 0:
        raise BadProb('all probabilities are zero')
    opts = []
    for i, x in enumerate(ps):
        if not isinstance(x, P) and x == 0:
            continue
        opts.append((i, x if (not isinstance(tot, P) and tot == 1) else E.simp(E.div(x, tot))))
    return opts


FORK['rng_choice'] = f_choice


def f_randint(self, eqn, st, ins):
    kb, paths = key_paths(ins[0])
    note_draw(self, paths, 'randint')
    shape = eqn.params['shape']
    k = int(np.prod(shape)) if shape else 1

    def ext(a):
        x = a.a
        if x.shape == kb + shape:
            return x.ravel()
        return np.broadcast_to(x.reshape(x.shape + (1,) * (len(kb) + len(shape) - x.ndim)), kb + shape).ravel()
    lo, hi = ext(ins[1]), ext(ins[2])
    opts = []
    for l, h in zip(lo, hi):
        n = max(int(h) - int(l), 1)     # jax: an empty range returns minval
        if self.symbolic_ints is not None and n > 1:
            a = E.mk_atom('sym', ('i', tuple(self.path), len(opts)), False, f'i{len(E.ATOMS)}')
            self.symbolic_ints(a, int(l), int(h))
            opts.append([(E.atomP(a), 1)])
        else:
            opts.append([(int(l) + j, Fraction(1, n) if n > 1 else 1) for j in range(n)])
    return _fork_elements(self, st, opts, kb + shape, 'int64')


Interp.symbolic_ints = None
FORK['rng_randint'] = f_randint


def f_perm(self, eqn, st, ins):
    kb, paths = key_paths(ins[0])
    note_draw(self, paths, 'permutation')
    n, k = eqn.params['n'], eqn.params['k']
    if self.symbolic_ints is not None:
        vals = []
        for b, _ in enumerate(paths):
            grp = []
            for j in range(k):
                a = E.mk_atom('sym', ('p', tuple(self.path), b, j), False, f'i{len(E.ATOMS)}')
                self.symbolic_ints(a, 0, n, distinct_from=list(grp))
                grp.append(a)
                vals.append(E.atomP(a))
        return [(st, [obj(kb + (k,), vals, 'int64')])]
    perms = list(itertools.permutations(range(n), k))
    if len(perms) ** len(paths) > self.max_states:
        raise SymError('too many permutations')
    pr = Fraction(1, len(perms))
    cur = [([], st.w)]
    for _ in paths:
        cur = [(v + list(q), E.mul(w, pr)) for v, w in cur for q in perms]
    out = []
    for vals, w in cur:
        s2 = st.fork(w, dict(st.us)) if len(cur) > 1 else st
        s2.w = w
        out.append((s2, [obj(kb + (k,), vals, 'int64')]))
    return out


FORK['rng_perm'] = f_perm


def f_argext(kind):
    def f(self, eqn, st, ins):
        axes = eqn.params['axes']
        x = ins[0].a
        ax = axes[0]
        xm = np.moveaxis(x, ax, -1)
        shp = xm.shape[:-1]
        flat = xm.reshape(-1, xm.shape[-1])
        cur = [([], st.us)]
        for row in flat:
            def go(best, k, us):
                if k == len(row):
                    return [(best, us)]
                a, b = row[k], row[best]
                res = []
                for v, us2 in (self.compare('<', b, a, us) if kind == 'max' else self.compare('<', a, b, us)):
                    res += go(k if v else best, k + 1, us2)
                return res
            nxt = []
            for vals, us in cur:
                for bst, us2 in go(0, 1, us):
                    nxt.append((vals + [bst], us2))
            cur = nxt
        out = []
        for vals, us in cur:
            s2 = st if len(cur) == 1 else st.fork(st.w, us)
            s2.us = dict(us)
            out.append((s2, [obj(shp, vals, eqn.outvars[0].aval.dtype)]))
        return out
    return f


FORK['argmax'] = f_argext('max')
FORK['argmin'] = f_argext('min')


def f_sort(self, eqn, st, ins):
    dim, nk = eqn.params['dimension'], eqn.params['num_keys']
    xs = [np.moveaxis(a.a, dim, -1) for a in ins]
    shp = xs[0].shape
    flats = [x.reshape(-1, shp[-1]) for x in xs]
    n = shp[-1]
    cur = [([], st.us)]
    for r in range(flats[0].shape[0]):
        rows = [f[r] for f in flats]

        def less(i, j, us, k=0):
            """lexicographic strict less on the key operands; yields (bool, us)."""
            a, b = rows[k][i], rows[k][j]
            res = []
            for v, us2 in self.compare('<', a, b, us):
                if v:
                    res.append((True, us2))
                elif k + 1 < nk:
                    for e, us3 in self.compare('==', a, b, us2):
                        if e:
                            res += less(i, j, us3, k + 1)
                        else:
                            res.append((False, us3))
                else:
                    res.append((False, us2))
            return res

        def insert(order, i, us):
            # stable insertion: place i after the last element that is <= it
            def go(pos, us):
                if pos == 0:
                    return [([i] + order, us)]
                res = []
                for v, us2 in less(i, order[pos - 1], us):
                    if v:
                        res += go(pos - 1, us2)
                    else:
                        res.append((order[:pos] + [i] + order[pos:], us2))
                return res
            return go(len(order), us)

        def sort_all(us):
            c = [([], us)]
            for i in range(n):
                c = [q for o, u in c for q in insert(o, i, u)]
            return c
        nxt = []
        for ords, us in cur:
            for o, us2 in sort_all(us):
                nxt.append((ords + [o], us2))
        cur = nxt
    out = []
    for ords, us in cur:
        s2 = st if len(cur) == 1 else st.fork(st.w, us)
        s2.us = dict(us)
        outs = []
        for a, f in zip(ins, flats):
            o = np.empty(f.shape, object)
            for r, od in enumerate(ords):
                for k, i in enumerate(od):
                    o[r, k] = f[r][i]
            outs.append(sarr(np.moveaxis(o.reshape(shp), -1, dim), a.dtype))
        out.append((s2, outs))
    return out


FORK['sort'] = f_sort


def f_topk(self, eqn, st, ins):
    raise SymError('top_k')


def f_floor(which):
    def f(self, eqn, st, ins):
        x = ins[0].a
        cur = [([], st.us)]
        for v in x.ravel():
            nxt = []
            for vals, us in cur:
                for r, us2 in floor_val(self, v, us, which):
                    nxt.append((vals + [r], us2))
            cur = nxt
        out = []
        for vals, us in cur:
            s2 = st if len(cur) == 1 else st.fork(st.w, us)
            s2.us = dict(us)
            out.append((s2, [obj(x.shape, vals, eqn.outvars[0].aval.dtype)]))
        return out
    return f


def floor_val(self, v, us, which):
    if not isinstance(v, P):
        if isinstance(v, float):
            return [(v, us)]
        if which == 'floor':
            return [(math.floor(v), us)]
        if which == 'ceil':
            return [(math.ceil(v), us)]
        if which == 'round_even':
            return [(round(v), us)]
        if which == 'round':
            return [(math.floor(abs(v) + Fraction(1, 2)) * (1 if v >= 0 else -1), us)]
        if which == 'trunc':
            return [(int(v), us)]
    if which == 'trunc':
        r = []
        for b, us2 in self.compare('<', v, 0, us):
            r += floor_val(self, v, us2, 'ceil' if b else 'floor')
        return r
    if which in ('round', 'round_even'):
        return floor_val(self, E.add(v, Fraction(1, 2)), us, 'floor')
    if which == 'ceil':
        return [(E.neg(r), u) for r, u in floor_val(self, E.neg(v), us, 'floor')]
    # search upwards/downwards from 0
    k = 0

    def go(k, us, d):
        if abs(k) > 64:
            raise SymError('floor of an unbounded value')
        res = []
        if d >= 0:
            for b, us2 in self.compare('<', v, k + 1, us):
                res += [(k, us2)] if b else go(k + 1, us2, 1)
        else:
            for b, us2 in self.compare('<=', k, v, us):
                res += [(k, us2)] if b else go(k - 1, us2, -1)
        return res
    res = []
    for b, us2 in self.compare('<', v, 0, us):
        res += go(-1, us2, -1) if b else go(0, us2, 1)
    return res


FORK['floor'] = f_floor('floor')
FORK['ceil'] = f_floor('ceil')


def f_round(self, eqn, st, ins):
    m = eqn.params['rounding_method']
    return f_floor('round_even' if int(m) == 1 else 'round')(self, eqn, st, ins)


FORK['round'] = f_round


def f_convert(self, eqn, st, ins):
    nd = np.dtype(eqn.params['new_dtype'])
    a = ins[0]
    od = a.dtype
    isint = np.issubdtype(nd, np.integer)
    if isint and np.issubdtype(od, np.floating) and not a.conc:
        return f_floor('trunc')(self, eqn, st, ins)
    if nd == bool and not a.conc:
        return cmp_rule('!=')(self, eqn, st, [a, obj((), [0], od)])
    if isint and od != bool:
        vals = [v if isinstance(v, (P, KeyE)) else int(v) for v in a.a.ravel()]
    elif isint:
        vals = [int(v) for v in a.a.ravel()]
    elif nd == bool:
        vals = [v != 0 for v in a.a.ravel()]
    elif jnp.issubdtype(nd, np.floating) and nd.itemsize < 4 and jnp.issubdtype(od, np.floating):
        # half precision is not idealised away: rounding is an unknown function of the value
        vals = [E.fn(f'round_{nd.name}', v if isinstance(v, P) else E.num(v)) if isinstance(v, (P, Fraction))
                else float(np.asarray(v, nd)) for v in a.a.ravel()]
    elif np.issubdtype(nd, np.floating):
        vals = [v if isinstance(v, (P, KeyE, Fraction)) else (v if isinstance(v, float) else int(v))
                for v in a.a.ravel()]
    else:
        raise SymError(f'convert to {nd}')
    return [(st, [obj(a.a.shape, vals, nd)])]


FORK['convert_element_type'] = f_convert


def f_sign(self, eqn, st, ins):
    cur = [([], st.us)]
    for v in ins[0].a.ravel():
        nxt = []
        for vals, us in cur:
            for lt, us2 in self.compare('<', v, 0, us):
                if lt:
                    nxt.append((vals + [-1], us2))
                    continue
                for e, us3 in self.compare('==', v, 0, us2):
                    nxt.append((vals + [0 if e else 1], us3))
        cur = nxt
    out = []
    for vals, us in cur:
        s2 = st if len(cur) == 1 else st.fork(st.w, us)
        s2.us = dict(us)
        out.append((s2, [obj(ins[0].a.shape, vals, ins[0].dtype)]))
    return out


FORK['sign'] = f_sign


# ================================================================== deterministic primitives
DET = {}


def ew(fn):
    def f(eqn, ins):
        shape = eqn.outvars[0].aval.shape
        xs = [np.broadcast_to(a.a, shape).ravel() for a in ins]
        return obj(shape, [fn(*t) for t in zip(*xs)], eqn.outvars[0].aval.dtype)
    return f


def _isint(eqn):
    return np.issubdtype(eqn.outvars[0].aval.dtype, np.integer)


def d_div(eqn, ins):
    if _isint(eqn):
        def q(a, b):
            if isinstance(a, P) or isinstance(b, P):
                raise SymError('symbolic integer division')
            s = abs(a) // abs(b)
            return s if (a >= 0) == (b >= 0) else -s
        return ew(q)(eqn, ins)
    return ew(E.div)(eqn, ins)


def d_rem(eqn, ins):
    def r(a, b):
        if isinstance(a, P) or isinstance(b, P):
            raise SymError('symbolic remainder')
        m = abs(a) % abs(b)
        return m if a >= 0 else -m
    return ew(r)(eqn, ins)


def wrapint(dtype, v):
    if isinstance(v, P):
        return v
    info = np.iinfo(dtype)
    if info.min <= v <= info.max:
        return v
    n = 1 << info.bits
    v %= n
    return v - n if v > info.max else v


def arith(fn):
    def f(eqn, ins):
        dt = eqn.outvars[0].aval.dtype
        if np.issubdtype(dt, np.integer):
            return ew(lambda *a: wrapint(dt, fn(*a)))(eqn, ins)
        return ew(fn)(eqn, ins)
    return f


def _chk(fn):
    def g(*a):
        for x in a:
            if isinstance(x, KeyE):
                raise SymError('arithmetic on random key bits')
        return fn(*a)
    return g


DET['add'] = arith(_chk(E.add))
DET['add_any'] = DET['add']
DET['sub'] = arith(_chk(E.sub))
DET['mul'] = arith(_chk(E.mul))
DET['div'] = d_div
DET['rem'] = d_rem
DET['neg'] = arith(E.neg)
DET['exp'] = ew(E.exp)
DET['exp2'] = ew(lambda x: E.exp(E.mul(x, E.log(2))))
DET['log'] = ew(E.log)
DET['log1p'] = ew(lambda x: E.log(E.add(1, x)))
DET['expm1'] = ew(lambda x: E.sub(E.exp(x), 1))
DET['sqrt'] = ew(E.sqrt)
DET['rsqrt'] = ew(lambda x: E.power(x, Fraction(-1, 2)))
DET['cbrt'] = ew(lambda x: E.power(x, Fraction(1, 3)))
DET['square'] = ew(lambda x: E.mul(x, x))
DET['tanh'] = ew(E.tanh)
DET['sinh'] = ew(E.sinh)
DET['cosh'] = ew(E.cosh)
DET['logistic'] = ew(E.logistic)
DET['sin'] = ew(E.sin)
DET['cos'] = ew(E.cos)
DET['tan'] = ew(lambda x: E.div(E.sin(x), E.cos(x)))
DET['erf'] = ew(E.erf)
DET['erfc'] = ew(lambda x: E.sub(1, E.erf(x)))
DET['erf_inv'] = ew(E.erf_inv)
DET['abs'] = ew(E.absval)
DET['max'] = ew(lambda a, b: E.mkminmax('max', [a, b]))
DET['min'] = ew(lambda a, b: E.mkminmax('min', [a, b]))
DET['is_finite'] = ew(lambda x: isinstance(x, P) or not isinstance(x, float))
DET['copy'] = ew(lambda x: x)
DET['copy_p'] = DET['copy']
DET['stop_gradient'] = DET['copy']
DET['device_put'] = lambda eqn, ins: list(ins)
DET['optimization_barrier'] = lambda eqn, ins: list(ins)
DET['reduce_precision'] = DET['copy']
DET['real'] = DET['copy']
DET['conj'] = DET['copy']


def d_integer_pow(eqn, ins):
    y = eqn.params['y']
    return ew(lambda x: E.ipow(x, y) if y >= 0 else E.div(1, E.ipow(x, -y)))(eqn, ins)


DET['integer_pow'] = d_integer_pow


def d_pow(eqn, ins):
    def p(x, y):
        if isinstance(y, P):
            return E.power(x, y)
        if isinstance(y, float):
            raise SymError('pow')
        return E.power(x, y)
    return ew(p)(eqn, ins)


DET['pow'] = d_pow
DET['clamp'] = ew(lambda lo, x, hi: E.mkminmax('min', [E.mkminmax('max', [lo, x]), hi]))


def logic(b, i):
    def f(eqn, ins):
        return ew(b if eqn.outvars[0].aval.dtype == bool else i)(eqn, ins)
    return f


DET['and'] = logic(lambda a, b: a and b, lambda a, b: a & b)
DET['or'] = logic(lambda a, b: a or b, lambda a, b: a | b)
DET['xor'] = logic(lambda a, b: a != b, lambda a, b: a ^ b)
DET['not'] = logic(lambda a: not a, lambda a: ~a)
DET['shift_left'] = ew(lambda a, b: a << b)
DET['shift_right_logical'] = ew(lambda a, b: a >> b)
DET['shift_right_arithmetic'] = ew(lambda a, b: a >> b)


def d_select(eqn, ins):
    shape = eqn.outvars[0].aval.shape
    w = np.broadcast_to(ins[0].a, shape).ravel()
    cs = [np.broadcast_to(a.a, shape).ravel() for a in ins[1:]]
    return obj(shape, [cs[int(k)][i] for i, k in enumerate(w)], eqn.outvars[0].aval.dtype)


DET['select_n'] = d_select


def reducer(fn):
    def f(eqn, ins):
        axes = tuple(eqn.params['axes'])
        x = ins[0].a
        keep = [d for d in range(x.ndim) if d not in axes]
        shp = tuple(x.shape[d] for d in keep)
        y = np.transpose(x, keep + list(axes)).reshape(int(np.prod(shp)) if shp else 1, -1)
        return obj(shp, [fn(list(r)) for r in y], eqn.outvars[0].aval.dtype)
    return f


def _sum(r):
    s = 0
    for v in r:
        s = E.add(s, v)
    return s


def _prod(r):
    s = 1
    for v in r:
        s = E.mul(s, v)
    return s


DET['reduce_sum'] = reducer(_sum)
DET['reduce_prod'] = reducer(_prod)
DET['reduce_max'] = reducer(lambda r: E.mkminmax('max', r) if any(isinstance(x, P) for x in r) else (
    NAN if any(x != x for x in r) else max(r)))
DET['reduce_min'] = reducer(lambda r: E.mkminmax('min', r) if any(isinstance(x, P) for x in r) else (
    NAN if any(x != x for x in r) else min(r)))
DET['reduce_and'] = reducer(lambda r: all(r))
DET['reduce_or'] = reducer(lambda r: any(r))


def cumul(fn):
    def f(eqn, ins):
        ax, rev = eqn.params['axis'], eqn.params['reverse']
        x = np.moveaxis(ins[0].a, ax, -1)
        y = np.empty(x.shape, object)
        for i in np.ndindex(x.shape[:-1]):
            acc = None
            r = range(x.shape[-1] - 1, -1, -1) if rev else range(x.shape[-1])
            for k in r:
                acc = x[i + (k,)] if acc is None else fn(acc, x[i + (k,)])
                y[i + (k,)] = acc
        return sarr(np.moveaxis(y, -1, ax), ins[0].dtype)
    return f


DET['cumsum'] = cumul(E.add)
DET['cumprod'] = cumul(E.mul)
DET['cummax'] = cumul(lambda a, b: E.mkminmax('max', [a, b]))
DET['cummin'] = cumul(lambda a, b: E.mkminmax('min', [a, b]))
DET['cumlogsumexp'] = cumul(lambda a, b: E.log(E.add(E.exp(a), E.exp(b))))


def d_iota(eqn, ins):
    p = eqn.params
    shape, dim = p['shape'], p['dimension']
    x = np.broadcast_to(np.arange(shape[dim]).reshape([-1 if d == dim else 1 for d in range(len(shape))]), shape)
    return obj(shape, [int(v) for v in x.ravel()], p['dtype'])


DET['iota'] = d_iota


def d_dot(eqn, ins):
    (lc, rc), (lb, rb) = eqn.params['dimension_numbers']
    a, b = ins[0].a, ins[1].a
    lf = [d for d in range(a.ndim) if d not in lc and d not in lb]
    rf = [d for d in range(b.ndim) if d not in rc and d not in rb]
    A = np.transpose(a, list(lb) + lf + list(lc))
    B = np.transpose(b, list(rb) + rf + list(rc))
    bs = A.shape[:len(lb)]
    n = int(np.prod([a.shape[d] for d in lc])) if lc else 1
    lfs, rfs = tuple(a.shape[d] for d in lf), tuple(b.shape[d] for d in rf)
    nb = int(np.prod(bs)) if bs else 1
    A = A.reshape(nb, int(np.prod(lfs)) if lfs else 1, n)
    B = B.reshape(nb, int(np.prod(rfs)) if rfs else 1, n)
    out = []
    for q in range(nb):
        for i in range(A.shape[1]):
            for j in range(B.shape[1]):
                s = 0
                for k in range(n):
                    x, y = A[q, i, k], B[q, j, k]
                    if (not isinstance(x, P) and x == 0) or (not isinstance(y, P) and y == 0):
                        continue
                    s = E.add(s, E.mul(x, y))
                out.append(s)
    return obj(bs + lfs + rfs, out, eqn.outvars[0].aval.dtype)


DET['dot_general'] = d_dot


# ---- structural primitives: run the real primitive on position numbers
_STRUCT = {}


def structural(name, nval):
    """first nval operands are data, the rest are concrete integer operands."""
    def f(eqn, ins):
        data, extra = ins[:nval], ins[nval:]
        if any(not e.conc for e in extra):
            raise SymError(f'symbolic index operand in {name}')
        offs = np.cumsum([1] + [d.a.size for d in data])
        key = (name, id(eqn), tuple(d.a.shape for d in data), tuple(e.id for e in extra))
        r = _STRUCT.get(key)
        if r is None or r[0] is not eqn:
            args = [jnp.asarray(np.arange(o, o + d.a.size, dtype=np.int64).reshape(d.a.shape))
                    for o, d in zip(offs, data)]
            args += [jnp.asarray(np.array(e.a.tolist(), dtype=e.dtype).reshape(e.a.shape)) for e in extra]
            params = dict(eqn.params)
            if name == 'gather':
                params['fill_value'] = 0
            with jax.ensure_compile_time_eval():
                y = np.asarray(eqn.primitive.bind(*args, **params))
            r = (eqn, y)
            _STRUCT[key] = r
        y = r[1]
        pool = np.concatenate([np.array([None], object)] + [d.a.ravel() for d in data])
        if (y <= 0).any():
            fv = eqn.params.get('fill_value') if name == 'gather' else 0
            dt = eqn.outvars[0].aval.dtype
            if name == 'gather':
                if fv is None:
                    fv = NAN if np.issubdtype(dt, np.floating) else int(
                        np.iinfo(dt).max if np.issubdtype(dt, np.unsignedinteger) else
                        (np.iinfo(dt).min if np.issubdtype(dt, np.integer) else 1))
                else:
                    fv = conc_to_sarr(np.asarray(fv, dt)).a.reshape(-1)[0]
            pool[0] = fv
            y = np.maximum(y, 0)
        return sarr(pool[y] if y.shape else obj_scalar(pool[int(y)]), eqn.outvars[0].aval.dtype)
    return f


def obj_scalar(v):
    o = np.empty((), object)
    o[()] = v
    return o


for _n in ('broadcast_in_dim', 'reshape', 'transpose', 'rev', 'squeeze', 'expand_dims', 'slice', 'real_part'):
    DET[_n] = structural(_n, 1)
DET['dynamic_slice'] = structural('dynamic_slice', 1)
DET['gather'] = structural('gather', 1)
DET['pad'] = structural('pad', 2)
DET['dynamic_update_slice'] = structural('dynamic_update_slice', 2)


def d_concat(eqn, ins):
    ax = eqn.params['dimension']
    return sarr(np.concatenate([a.a for a in ins], axis=ax), eqn.outvars[0].aval.dtype)


DET['concatenate'] = d_concat


def _simple_struct():
    def d_broadcast(eqn, ins):
        shape, bd = eqn.params['shape'], eqn.params['broadcast_dimensions']
        x = ins[0].a
        s = [1] * len(shape)
        for i, d in enumerate(bd):
            s[d] = x.shape[i]
        return sarr(np.broadcast_to(x.reshape(s), shape).copy(), ins[0].dtype)
    DET['broadcast_in_dim'] = d_broadcast

    def d_reshape(eqn, ins):
        return sarr(ins[0].a.reshape(eqn.outvars[0].aval.shape), ins[0].dtype)
    DET['reshape'] = d_reshape
    DET['squeeze'] = d_reshape
    DET['expand_dims'] = d_reshape
    DET['transpose'] = lambda eqn, ins: sarr(np.transpose(ins[0].a, eqn.params['permutation']).copy(), ins[0].dtype)
    DET['rev'] = lambda eqn, ins: sarr(np.flip(ins[0].a, eqn.params['dimensions']).copy(), ins[0].dtype)

    def d_slice(eqn, ins):
        p = eqn.params
        st = p['strides'] or (1,) * len(p['start_indices'])
        sl = tuple(slice(a, b, c) for a, b, c in zip(p['start_indices'], p['limit_indices'], st))
        r = ins[0].a[sl]
        return sarr(r.copy() if isinstance(r, np.ndarray) else obj_scalar(r), ins[0].dtype)
    DET['slice'] = d_slice


_simple_struct()


def d_scatter(combine):
    def f(eqn, ins):
        op, idx, upd = ins
        if not idx.conc:
            raise SymError('symbolic scatter index')
        n, m = op.a.size, upd.a.size
        key = ('scatter', id(eqn), op.a.shape, upd.a.shape, idx.id)
        r = _STRUCT.get(key)
        if r is None or r[0] is not eqn:
            iz = jnp.asarray(np.array(idx.a.tolist(), dtype=idx.dtype).reshape(idx.a.shape))
            p = eqn.params
            from jax._src.lax import slicing
            dst = []
            # destination of each update element, found with the real scatter semantics
            one = np.zeros(m, np.int64)
            fn = jax.jit(lambda u: jax.lax.scatter_add(
                jnp.zeros(op.a.shape, jnp.int64), iz, u.reshape(upd.a.shape), p['dimension_numbers'],
                indices_are_sorted=False, unique_indices=False, mode=p['mode']))
            with jax.ensure_compile_time_eval():
                if m <= 64:
                    for k in range(m):
                        one[k] = 1
                        y = np.asarray(fn(jnp.asarray(one))).ravel()
                        one[k] = 0
                        nz = np.nonzero(y)[0]
                        dst.append(int(nz[0]) if len(nz) else -1)
                else:
                    # binary encoding of the update number in several passes; destinations may collide, so use
                    # the gather direction: linear transpose of scatter_add gives, per update, the read position
                    vals = np.arange(1, n + 1, dtype=np.float64).reshape(op.a.shape)
                    lin = jax.linear_transpose(lambda u: jax.lax.scatter_add(
                        jnp.zeros(op.a.shape), iz, u, p['dimension_numbers'], indices_are_sorted=False,
                        unique_indices=False, mode=p['mode']), jax.ShapeDtypeStruct(upd.a.shape, jnp.float64))
                    (g,) = lin(jnp.asarray(vals))
                    dst = [int(v) - 1 for v in np.asarray(g).ravel()]
            r = (eqn, dst)
            _STRUCT[key] = r
        out = op.a.ravel().copy()
        uf = upd.a.ravel()
        for k, d in enumerate(r[1]):
            if d >= 0:
                out[d] = combine(out[d], uf[k])
        return sarr(out.reshape(op.a.shape), op.dtype)
    return f


DET['scatter'] = d_scatter(lambda a, b: b)
DET['scatter-add'] = d_scatter(E.add)
DET['scatter_add'] = DET['scatter-add']
DET['scatter-mul'] = d_scatter(E.mul)
DET['scatter_mul'] = DET['scatter-mul']
DET['scatter-max'] = d_scatter(lambda a, b: E.mkminmax('max', [a, b]))
DET['scatter_max'] = DET['scatter-max']
DET['scatter-min'] = d_scatter(lambda a, b: E.mkminmax('min', [a, b]))
DET['scatter_min'] = DET['scatter-min']


def d_conv(eqn, ins):
    """convolution is bilinear: find its taps with the real primitive on basis kernels."""
    x, k = ins
    p = dict(eqn.params)
    key = ('conv', id(eqn), x.a.shape, k.a.shape)
    r = _STRUCT.get(key)
    if r is None or r[0] is not eqn:
        fn = jax.jit(lambda a, b: eqn.primitive.bind(a, b, **p))
        taps = []
        with jax.ensure_compile_time_eval():
            pos = jnp.asarray(np.arange(1, x.a.size + 1, dtype=np.float64).reshape(x.a.shape))
            one = jnp.ones(x.a.shape, jnp.float64)
            e = np.zeros(k.a.size)
            for i in range(k.a.size):
                e[i] = 1
                kk = jnp.asarray(e.reshape(k.a.shape))
                cnt = np.rint(np.asarray(fn(one, kk))).astype(int)
                if cnt.max() > 1:
                    raise SymError('convolution with feature groups')
                taps.append(np.rint(np.asarray(fn(pos, kk))).astype(int).ravel())
                e[i] = 0
        r = (eqn, taps)
        _STRUCT[key] = r
    xf, kf = x.a.ravel(), k.a.ravel()
    shp = eqn.outvars[0].aval.shape
    out = [0] * int(np.prod(shp))
    for i, t in enumerate(r[1]):
        for o in np.nonzero(t)[0]:
            out[o] = E.add(out[o], E.mul(kf[i], xf[t[o] - 1]))
    return obj(shp, out, eqn.outvars[0].aval.dtype)


DET['conv_general_dilated'] = d_conv


def pivot(s):
    """contract of cholesky: the input is positive definite, so its pivots are positive"""
    if isinstance(s, P):
        for a in s.atoms():
            at = E.ATOMS[a]
            if at.kind == 'def' and a in PIVOTS and not at.pos:
                at.pos = True
        if len(s.t) > 1:
            c, m, q = E.content(s)
            if all(E.CUR.atom_pos(a) or (isinstance(e, int) and e % 2 == 0) for a, e in m):
                d = E.defatom(q if c > 0 else E.neg(q))
                PIVOTS.add(d.id)
                d.pos = True
    return s


PIVOTS = set()


def d_cholesky(eqn, ins):
    a = ins[0].a
    n = a.shape[-1]
    L = np.zeros(a.shape, object)
    L[...] = 0
    for b in np.ndindex(a.shape[:-2]):
        A, l = a[b], L[b]
        for j in range(n):
            s = A[j, j]
            for k in range(j):
                s = E.sub(s, E.mul(l[j, k], l[j, k]))
            l[j, j] = E.sqrt(pivot(E.canon(s)))
            for i in range(j + 1, n):
                s = E.mul(Fraction(1, 2), E.add(A[i, j], A[j, i]))
                for k in range(j):
                    s = E.sub(s, E.mul(l[i, k], l[j, k]))
                l[i, j] = E.div(s, l[j, j])
    return sarr(L, ins[0].dtype)


DET['cholesky'] = d_cholesky


def d_trisolve(eqn, ins):
    p = eqn.params
    a, b = ins[0].a, ins[1].a
    out = np.empty(b.shape, object)
    for bi in np.ndindex(a.shape[:-2]):
        A, B = a[bi], b[bi]
        n = A.shape[0]
        lower, ta = p['lower'], p['transpose_a']
        M = np.zeros((n, n), object)
        for i in range(n):
            for j in range(n):
                keep = (i >= j) if lower else (i <= j)
                M[i, j] = (1 if (i == j and p['unit_diagonal']) else A[i, j]) if keep else 0
        if ta:
            M = M.T
            lower = not lower
        if not p['left_side']:
            M = M.T
            lower = not lower
            B = B.T
        X = np.empty(B.shape, object)
        for c in range(B.shape[1]):
            for i in (range(n) if lower else range(n - 1, -1, -1)):
                s = B[i, c]
                for j in (range(i) if lower else range(i + 1, n)):
                    s = E.sub(s, E.mul(M[i, j], X[j, c]))
                X[i, c] = E.div(s, M[i, i])
        out[bi] = X if p['left_side'] else X.T
    return sarr(out, ins[1].dtype)


DET['triangular_solve'] = d_trisolve


def d_lu(eqn, ins):
    """LU without pivoting (exact arithmetic; the pivot order does not change the solution of a linear system)."""
    a = ins[0].a
    if a.ndim != 2:
        raise SymError('batched lu')
    n = a.shape[0]
    A = a.copy()
    for k in range(n):
        for i in range(k + 1, n):
            if not isinstance(A[i, k], P) and A[i, k] == 0:
                continue
            A[i, k] = E.div(A[i, k], A[k, k])
            for j in range(k + 1, n):
                A[i, j] = E.simp(E.sub(A[i, j], E.mul(A[i, k], A[k, j])))
    return [sarr(A, ins[0].dtype), obj((n,), list(range(n)), 'int32'), obj((n,), list(range(n)), 'int32')]


DET['lu'] = d_lu


def default_rule(name):
    raise SymError(f'primitive {name} has no symbolic rule')


# ---- opaque symbolic functions as jax primitives (for user callbacks)
def opaque(name, nargs, pos=False):
    """elementwise uninterpreted function usable inside traced code."""
    p = core.Primitive('uf_' + name)

    def f(*args):
        args = [jnp.asarray(a, jnp.float64) for a in args]
        args = jnp.broadcast_arrays(*args)
        return p.bind(*args)

    p.def_abstract_eval(lambda *a: core.ShapedArray(a[0].shape, np.dtype('float64')))

    def batch(args, dims, **kw):
        from jax.interpreters import batching
        size = next(a.shape[d] for a, d in zip(args, dims) if d is not batching.not_mapped)
        na = [jnp.broadcast_to(a, (size,) + a.shape) if d is batching.not_mapped else jnp.moveaxis(a, d, 0)
              for a, d in zip(args, dims)]
        return p.bind(*na), 0
    from jax.interpreters import batching
    batching.primitive_batchers[p] = batch
    DET['uf_' + name] = ew(lambda *a: E.fn(name, *[x if isinstance(x, P) else E.num(x) for x in a], pos=pos))
    return f
