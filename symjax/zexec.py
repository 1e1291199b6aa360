"""Symbolic execution of jaxprs over z3 terms: symbolic integers (indices, random integers, permutations) as solver
variables, pixel values as reals.  One path, no forks: gathers and scatters at symbolic positions become if-then-else
terms.  Used for the data-set and layout code."""
import math
import time
import numpy as np
from fractions import Fraction
import jax
import jax.numpy as jnp
from jax import core
from .expr import SymError
from .interp import KeyE
from .smt import STATS, z3

Z = z3.ExprRef
BV = [0]          # width of machine integers standing for the symbolic integers (0: mathematical integers)


def intval(x):
    if BV[0]:
        m = 2 ** (BV[0] - 1) - 1
        return z3.BitVecVal(max(-m, min(m, x)), BV[0])
    return z3.IntVal(x)


def isz(x):
    return isinstance(x, z3.ExprRef)


def num(x):
    """python value -> z3 numeral when mixing."""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return intval(x)
    if isinstance(x, Fraction):
        return z3.RealVal(f'{x.numerator}/{x.denominator}')
    return x


def real(x):
    if isz(x):
        return z3.ToReal(x) if z3.is_int(x) else x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(f'{x.numerator}/{x.denominator}')
    if isinstance(x, float):
        raise SymError('non finite value in a solver term')
    return x


def fr(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


def conc(x):
    x = np.asarray(x)
    o = np.empty(x.shape, object)
    fo, fx = o.reshape(-1), x.reshape(-1)
    for i in range(fx.size):
        v = fx[i]
        if x.dtype == bool:
            fo[i] = bool(v)
        elif np.issubdtype(x.dtype, np.integer):
            fo[i] = int(v)
        elif np.issubdtype(x.dtype, np.floating):
            f = float(v)
            if math.isfinite(f):
                fo[i] = fr(Fraction(str(v)) if not float(v).is_integer() else Fraction(int(f)))
            else:
                fo[i] = f
        else:
            raise SymError(f'constant of dtype {x.dtype}')
    return o


def both(a, b):
    """coerce to a common z3 sort."""
    if isz(a) and z3.is_real(a) or isz(b) and z3.is_real(b) or isinstance(a, Fraction) or isinstance(b, Fraction):
        return real(a), real(b)
    return num(a), num(b)


def add(a, b):
    if not isz(a) and not isz(b):
        return fr(a + b)
    if not isz(a) and a == 0:
        return b
    if not isz(b) and b == 0:
        return a
    a, b = ordered(both(a, b))
    return a + b


def neg(a):
    return -a


def sub(a, b):
    if not isz(a) and not isz(b):
        return fr(a - b)
    if not isz(b) and b == 0:
        return a
    a, b = both(a, b)
    return a - b


AC = [False]      # order the operands of sums, products and maxima by term, so that equal sums are equal terms


def ordered(xs):
    return sorted(xs, key=lambda x: x.get_id() if isz(x) else -1) if AC[0] else xs


def mul(a, b):
    if not isz(a) and not isz(b):
        return fr(a * b)
    for x, y in ((a, b), (b, a)):
        if not isz(x):
            if x == 0:
                return 0
            if x == 1:
                return y
    a, b = ordered(both(a, b))
    return a * b


def rdiv(a, b):
    if not isz(a) and not isz(b):
        if b == 0:
            return float('nan') if a == 0 else math.copysign(float('inf'), a)
        return fr(Fraction(a) / Fraction(b))
    if not isz(b) and b == 1:
        return a
    return real(a) / real(b)


def idiv(a, b):
    """truncating integer division"""
    if not isz(a) and not isz(b):
        s = abs(a) // abs(b)
        return s if (a >= 0) == (b >= 0) else -s
    if isz(b) or b <= 0:
        raise SymError('division by a symbolic integer')
    return ite(a >= 0, a / b, -((-a) / b))


def irem(a, b):
    if not isz(a) and not isz(b):
        m = abs(a) % abs(b)
        return m if a >= 0 else -m
    if isz(b) or b <= 0:
        raise SymError('remainder by a symbolic integer')
    return ite(a >= 0, a % b, -((-a) % b))


def same(a, b):
    if isz(a) and isz(b):
        return a.eq(b)
    if isz(a) or isz(b):
        return False
    return type(a) is type(b) and a == b


def ite(c, a, b):
    if not isz(c):
        return a if c else b
    if same(a, b):
        return a
    if isinstance(a, KeyE) or isinstance(b, KeyE):
        raise SymError('selection between random keys')
    if isinstance(a, bool) and isinstance(b, bool):
        return c if a else z3.Not(c)
    a, b = both(a, b)
    if z3.is_bool(a) != z3.is_bool(b):
        raise SymError('mixed sorts in a selection')
    return z3.If(c, a, b)


def cmp(op):
    def f(a, b):
        if isinstance(a, float) or isinstance(b, float) or not (isz(a) or isz(b)):
            if isz(a) or isz(b):
                inf = a if isinstance(a, float) else b
                if inf != inf:
                    return op == '!='
                # finite against infinite
                s = (inf < 0) if inf is b else (inf > 0)    # True when a > b
                return {'<': not s, '<=': not s, '>': s, '>=': s, '==': False, '!=': True}[op]
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
        if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)):
            if op in ('==', '!='):
                a, b = num(a), num(b)
            else:
                a, b = toint(a), toint(b)
        a, b = both(a, b)
        return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b,
                '==': lambda: a == b, '!=': lambda: a != b}[op]()
    return f


LT, LE, GT, GE, EQ, NE = map(cmp, ('<', '<=', '>', '>=', '==', '!='))


def toint(a):
    if isinstance(a, bool):
        return int(a)
    if isz(a) and z3.is_bool(a):
        return z3.If(a, intval(1), intval(0))
    return a


def zmax(a, b):
    if not isz(a) and not isz(b):
        return max(a, b)
    if isinstance(a, float):
        return b if a < 0 else a
    if isinstance(b, float):
        return a if b < 0 else b
    if same(a, b):
        return a
    return ite(GE(a, b), a, b)


def zmin(a, b):
    if not isz(a) and not isz(b):
        return min(a, b)
    if isinstance(a, float):
        return b if a > 0 else a
    if isinstance(b, float):
        return a if b > 0 else b
    if same(a, b):
        return a
    return ite(LE(a, b), a, b)


def AND(*xs):
    r = []
    for x in xs:
        if isz(x):
            r.append(x)
        elif not x:
            return False
    return True if not r else (r[0] if len(r) == 1 else z3.And(r))


def OR(*xs):
    r = []
    for x in xs:
        if isz(x):
            r.append(x)
        elif x:
            return True
    return False if not r else (r[0] if len(r) == 1 else z3.Or(r))


def NOT(x):
    return z3.Not(x) if isz(x) else not x


def boolean(x):
    return isinstance(x, bool) or (isz(x) and z3.is_bool(x))


UF = {}


def uf(name, *args):
    if not any(isz(a) for a in args):
        if name == 'sqrt':
            from math import isqrt
            q = Fraction(args[0])
            if q >= 0 and isqrt(q.numerator) ** 2 == q.numerator and isqrt(q.denominator) ** 2 == q.denominator:
                return fr(Fraction(isqrt(q.numerator), isqrt(q.denominator)))
        if name == 'exp' and args[0] == 0:
            return 1
    f = UF.get((name, len(args)))
    if f is None:
        f = UF[(name, len(args))] = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
    return f(*[real(a) for a in args])


def simp(x):
    return z3.simplify(x) if isz(x) and AC[0] else x


class ZExec:
    def __init__(self):
        self.asm = []           # contracts of the random draws
        self.oblig = []         # (what, condition) that must hold: in-range indices
        self.draws = {}
        self.n = 0
        self.neqns = 0
        self.vars = []

    def fresh(self, kind, name, sort):
        v = z3.BitVec(name, BV[0]) if sort == 'int' and BV[0] else \
            {'int': z3.Int, 'real': z3.Real, 'bool': z3.Bool}[sort](name)
        self.vars.append((kind, name, v))
        return v

    # ------------------------------------------------------------ driver
    def run(self, closed, args):
        return self.call(closed.jaxpr, [c if isinstance(c, np.ndarray) and c.dtype == object else conc(c)
                                        for c in closed.consts], list(args))

    def call(self, jaxpr, consts, args):
        env = {}
        for v, c in zip(jaxpr.constvars, consts):
            env[v] = c
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        rd = lambda v: conc(np.asarray(v.val, v.aval.dtype)) if isinstance(v, core.Literal) else env[v]
        for eqn in jaxpr.eqns:
            self.neqns += 1
            ins = [rd(v) for v in eqn.invars]
            f = RULES.get(eqn.primitive.name)
            if f is None:
                raise SymError(f'no rule for primitive {eqn.primitive.name}')
            out = f(self, eqn, ins)
            if not isinstance(out, (list, tuple)):
                out = [out]
            for v, o in zip(eqn.outvars, out):
                if not isinstance(v, core.DropVar):
                    env[v] = o
        return [rd(v) for v in jaxpr.outvars]


RULES = {}


def rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
        return f
    return deco


def elementwise(fn):
    def f(self, eqn, ins):
        shape = eqn.outvars[0].aval.shape
        xs = [np.broadcast_to(a, shape).reshape(-1) for a in ins]
        o = np.empty(int(np.prod(shape)) if shape else 1, object)
        for i in range(o.size):
            o[i] = fn(*[x[i] for x in xs])
        return o.reshape(shape)
    return f


def isfloat(eqn, k=0):
    return np.issubdtype(eqn.outvars[k].aval.dtype, np.floating)


for _n, _f in (('add', add), ('add_any', add), ('sub', sub), ('mul', mul), ('neg', neg), ('max', zmax), ('min', zmin),
               ('lt', LT), ('le', LE), ('gt', GT), ('ge', GE), ('eq', EQ), ('ne', NE), ('lt_to', LT), ('le_to', LE),
               ('copy', lambda x: x), ('stop_gradient', lambda x: x), ('square', lambda x: mul(x, x)),
               ('abs', lambda x: ite(GE(x, 0), x, neg(x))),
               ('sign', lambda x: ite(GT(x, 0), 1, ite(LT(x, 0), -1, 0))),
               ('is_finite', lambda x: not isinstance(x, float)),
               ('sqrt', lambda x: uf('sqrt', x)), ('exp', lambda x: uf('exp', x)), ('log', lambda x: uf('log', x)),
               ('sin', lambda x: uf('sin', simp(x))), ('cos', lambda x: uf('cos', simp(x))), ('tanh', lambda x: uf('tanh', x)),
               ('erf', lambda x: uf('erf', x)), ('logistic', lambda x: uf('logistic', x)),
               ('rsqrt', lambda x: rdiv(1, uf('sqrt', x)))):
    RULES[_n] = elementwise(_f)
RULES['div'] = lambda self, eqn, ins: elementwise(rdiv if isfloat(eqn) else idiv)(self, eqn, ins)
RULES['rem'] = lambda self, eqn, ins: elementwise(irem)(self, eqn, ins)
RULES['and'] = elementwise(lambda a, b: AND(a, b) if boolean(a) else _noint('and'))
RULES['or'] = elementwise(lambda a, b: OR(a, b) if boolean(a) else _noint('or'))
RULES['xor'] = elementwise(lambda a, b: NE(a, b) if boolean(a) else _noint('xor'))
RULES['not'] = elementwise(lambda a: NOT(a) if boolean(a) else _noint('not'))


def _noint(n):
    raise SymError(f'bitwise {n} on integers')


def _floor(up):
    def f(x):
        if not isz(x):
            return math.ceil(x) if up else math.floor(x)
        if z3.is_int(x) or z3.is_bv(x):
            return x
        return -z3.ToInt(-x) if up else z3.ToInt(x)
    return f


RULES['floor'] = elementwise(_floor(False))
RULES['ceil'] = elementwise(_floor(True))


@rule('clamp')
def _clamp(self, eqn, ins):
    lo, x, hi = ins
    return elementwise(lambda l, v, h: zmin(zmax(v, l), h))(self, eqn, [lo, x, hi])


@rule('integer_pow')
def _ipow(self, eqn, ins):
    k = eqn.params['y']

    def p(x):
        r = 1
        for _ in range(abs(k)):
            r = mul(r, x)
        return r if k >= 0 else rdiv(1, r)
    return elementwise(p)(self, eqn, ins)


@rule('convert_element_type')
def _convert(self, eqn, ins):
    dt = np.dtype(eqn.params['new_dtype'])
    src = eqn.invars[0].aval.dtype

    def c(x):
        if isinstance(x, KeyE):
            return x
        if dt == bool:
            return x if boolean(x) else NE(x, 0)
        x = toint(x)
        if np.issubdtype(dt, np.integer) and np.issubdtype(src, np.floating):
            if isz(x):
                return ite(GE(x, 0), _floor(False)(x), _floor(True)(x))
            return int(x)
        if dt.itemsize < 4 and not isint(dt) and src.itemsize > dt.itemsize and not isint(src):
            # half precision is not idealised away: rounding is an unknown function of the value
            return uf(f'round_{dt.name}', x) if isz(x) else float(np.asarray(float(x), dt))
        return x
    isint = lambda d: np.issubdtype(d, np.integer) or d == bool
    return elementwise(c)(self, eqn, ins)


@rule('select_n')
def _select(self, eqn, ins):
    w, cases = ins[0], ins[1:]

    def s(c, *xs):
        if boolean(c):
            return ite(c, xs[1], xs[0])
        r = xs[-1]
        for k in range(len(xs) - 2, -1, -1):
            r = ite(EQ(c, k), xs[k], r)
        return r
    return elementwise(s)(self, eqn, [w] + cases)


# ------------------------------------------------------------ reductions
def reducer(fn, init, order=lambda r: r):
    def f(self, eqn, ins):
        x = ins[0]
        axes = eqn.params['axes']
        keep = [d for d in range(x.ndim) if d not in axes]
        y = np.transpose(x, keep + list(axes)).reshape([x.shape[d] for d in keep] + [-1])
        shape = eqn.outvars[0].aval.shape
        o = np.empty(shape, object)
        for i in np.ndindex(*shape):
            row = y[i] if shape else y
            acc = init
            for v in order(list(row.reshape(-1))):
                acc = v if acc is None else fn(acc, v)
            o[i] = acc
        return o
    return f


def zsum(xs):
    c = 0
    t = []
    for x in xs:
        if isz(x):
            t.append(x)
        else:
            c = add(c, x)
    if not t:
        return c
    if any(z3.is_real(x) for x in t) or isinstance(c, Fraction):
        t = [real(x) for x in t] + ([real(c)] if c != 0 else [])
    else:
        t = t + ([num(c)] if c != 0 else [])
    if len(t) == 1:
        return t[0]
    if BV[0] and z3.is_bv(t[0]):
        r = t[0]
        for x in t[1:]:
            r = r + x
        return r
    return z3.Sum(ordered(t))


def _rsum(self, eqn, ins):
    x = ins[0]
    axes = eqn.params['axes']
    keep = [d for d in range(x.ndim) if d not in axes]
    y = np.transpose(x, keep + list(axes)).reshape([x.shape[d] for d in keep] + [-1])
    shape = eqn.outvars[0].aval.shape
    o = np.empty(shape, object)
    for i in np.ndindex(*shape):
        o[i] = zsum((y[i] if shape else y).reshape(-1))
    return o


RULES['reduce_sum'] = _rsum
RULES['reduce_max'] = lambda self, eqn, ins: reducer(zmax, None, ordered)(self, eqn, ins)
RULES['reduce_min'] = reducer(zmin, None)
RULES['reduce_prod'] = reducer(mul, 1)
RULES['reduce_and'] = reducer(lambda a, b: AND(a, b), True)
RULES['reduce_or'] = reducer(lambda a, b: OR(a, b), False)


def cumul(fn):
    def f(self, eqn, ins):
        ax, rev = eqn.params['axis'], eqn.params['reverse']
        x = np.moveaxis(ins[0], ax, -1)
        y = np.empty(x.shape, object)
        for i in np.ndindex(x.shape[:-1]):
            acc = None
            r = range(x.shape[-1] - 1, -1, -1) if rev else range(x.shape[-1])
            for k in r:
                acc = x[i + (k,)] if acc is None else fn(acc, x[i + (k,)])
                y[i + (k,)] = acc
        return np.moveaxis(y, -1, ax)
    return f


RULES['cumsum'] = cumul(add)
RULES['cumprod'] = cumul(mul)
RULES['cummax'] = cumul(zmax)
RULES['cummin'] = cumul(zmin)


def argext(better):
    def f(self, eqn, ins):
        (ax,) = eqn.params['axes']
        x = np.moveaxis(ins[0], ax, -1)
        o = np.empty(x.shape[:-1], object)
        for i in np.ndindex(x.shape[:-1]):
            best, bi = x[i + (0,)], 0
            for k in range(1, x.shape[-1]):
                c = better(x[i + (k,)], best)
                best, bi = ite(c, x[i + (k,)], best), ite(c, k, bi)
            o[i] = bi
        return o
    return f


RULES['argmax'] = argext(GT)
RULES['argmin'] = argext(LT)


# ------------------------------------------------------------ structure
def structural(nval):
    """data operands are replaced by position numbers and the real primitive is run on them."""
    def f(self, eqn, ins):
        data, extra = ins[:nval], ins[nval:]
        if any(isz(v) for e in extra for v in e.reshape(-1)):
            return None
        offs = np.cumsum([1] + [d.size for d in data])
        args = [jnp.asarray(np.arange(o, o + d.size, dtype=np.int64).reshape(d.shape)) for o, d in zip(offs, data)]
        args += [jnp.asarray(np.array(e.tolist(), dtype=v.aval.dtype).reshape(e.shape))
                 for e, v in zip(extra, eqn.invars[nval:])]
        params = dict(eqn.params)
        if eqn.primitive.name == 'gather':
            params['fill_value'] = 0
        with jax.ensure_compile_time_eval():
            y = np.asarray(eqn.primitive.bind(*args, **params))
        pool = np.concatenate([np.array([None], object)] + [d.reshape(-1) for d in data])
        if (y <= 0).any():
            if eqn.primitive.name == 'gather':
                self.oblig.append(('index out of range in a gather', z3.BoolVal(False)))
            pool[0] = 0
            y = np.maximum(y, 0)
        o = np.empty(y.shape, object)
        o.reshape(-1)[:] = pool[y.reshape(-1)]
        return o
    return f


for _n in ('broadcast_in_dim', 'reshape', 'transpose', 'rev', 'squeeze', 'expand_dims', 'slice'):
    RULES[_n] = structural(1)
RULES['pad'] = structural(2)


@rule('concatenate')
def _concat(self, eqn, ins):
    return np.concatenate(ins, axis=eqn.params['dimension'])


@rule('iota')
def _iota(self, eqn, ins):
    p = eqn.params
    sh, d = p['shape'], p['dimension']
    return conc(np.broadcast_to(np.arange(sh[d]).reshape([-1 if k == d else 1 for k in range(len(sh))]), sh))


def _rows(idx):
    return idx.reshape(int(np.prod(idx.shape[:-1])) if idx.ndim > 1 else 1, idx.shape[-1])


@rule('device_put', 'optimization_barrier')
def _devput(self, eqn, ins):
    return list(ins)


def _cands(op_shape, slice_sizes, dims):
    """possible start vectors."""
    return list(np.ndindex(*[op_shape[d] - slice_sizes[d] + 1 for d in dims]))


@rule('gather')
def _gather(self, eqn, ins):
    r = structural(1)(self, eqn, ins)
    if r is not None:
        return r
    op, idx = ins
    dn = eqn.params['dimension_numbers']
    ss = eqn.params['slice_sizes']
    dims = dn.start_index_map
    mode = str(eqn.params['mode'])
    cands = _cands(op.shape, ss, dims)
    rows = _rows(idx)
    hi = [op.shape[d] - ss[d] for d in dims]
    rr = []
    for row in rows:
        r = []
        for v, h in zip(row, hi):
            if 'CLIP' in mode:
                v = zmin(zmax(v, 0), h)
            elif isz(v) or not 0 <= v <= h:
                self.oblig.append(('index out of range in a gather', AND(GE(v, 0), LE(v, h))))
            r.append(v)
        rr.append(r)
    pos = jnp.asarray(np.arange(op.size).reshape(op.shape))
    params = {**eqn.params, 'fill_value': 0}
    # which index row feeds each output element
    osh = eqn.outvars[0].aval.shape
    bd = [d for d in range(len(osh)) if d not in dn.offset_dims]
    rid = np.arange(len(rows)).reshape([osh[d] for d in bd] or ())
    rid = np.broadcast_to(rid.reshape([osh[d] if d in bd else 1 for d in range(len(osh))]), osh).reshape(-1)
    flat = op.reshape(-1)
    outs = []
    for c in cands:
        ix = np.broadcast_to(np.asarray(c), idx.shape)
        with jax.ensure_compile_time_eval():
            outs.append(np.asarray(eqn.primitive.bind(pos, jnp.asarray(ix, dtype=eqn.invars[1].aval.dtype),
                                                      **params)).reshape(-1))
    conds = [[AND(*[EQ(v, k) for v, k in zip(r, c)]) for c in cands] for r in rr]
    o = np.empty(len(rid), object)
    for e in range(len(rid)):
        cs = conds[rid[e]]
        acc = None
        for k in range(len(cands) - 1, -1, -1):
            if cs[k] is False:
                continue
            v = flat[outs[k][e]]
            acc = v if acc is None else ite(cs[k], v, acc)
        if acc is None:
            raise SymError('gather with no feasible index')
        o[e] = acc
    return o.reshape(osh)


def scatter(combine):
    def f(self, eqn, ins):
        op, idx, upd = ins
        dn = eqn.params['dimension_numbers']
        mode = str(eqn.params['mode'])
        dims = dn.scatter_dims_to_operand_dims
        usd = dn.update_window_dims
        bd = [d for d in range(upd.ndim) if d not in usd]
        rows = _rows(idx)
        # window sizes per operand dimension
        ws = []
        w = iter([upd.shape[d] for d in usd])
        for d in range(op.ndim):
            ws.append(1 if d in dn.inserted_window_dims else next(w))
        cands = _cands(op.shape, ws, dims)
        hi = [op.shape[d] - ws[d] for d in dims]
        # destination of each update element for each start
        ush = upd.shape
        lin = np.arange(op.size).reshape(op.shape)
        rid = np.arange(len(rows)).reshape([ush[d] for d in bd] or ())
        rid = np.broadcast_to(rid.reshape([ush[d] if d in bd else 1 for d in range(len(ush))]), ush).reshape(-1)
        wpos = []           # window coordinates in operand space
        opd = [d for d in range(op.ndim) if d not in dn.inserted_window_dims]
        for e in np.ndindex(*ush):
            p = [0] * op.ndim
            for a, d in zip(usd, opd):
                p[d] = e[a]
            wpos.append(p)
        out = op.reshape(-1).copy()
        uf_ = upd.reshape(-1)
        by_row = {}
        for e, r in enumerate(rid):
            by_row.setdefault(int(r), []).append(e)
        for r, row in enumerate(rows):
            row = list(row)
            if 'CLIP' in mode:
                row = [zmin(zmax(v, 0), h) for v, h in zip(row, hi)]
            # out of range updates are dropped (FILL_OR_DROP)
            elif 'PROMISE' in mode:
                for v, h in zip(row, hi):
                    if isz(v) or not 0 <= v <= h:
                        self.oblig.append(('index out of range in a scatter', AND(GE(v, 0), LE(v, h))))
            new = {}
            for c in cands:
                cd = AND(*[EQ(v, k) for v, k in zip(row, c)])
                if cd is False:
                    continue
                for e in by_row.get(r, []):
                    p = list(wpos[e])
                    for d, k in zip(dims, c):
                        p[d] += k
                    q = int(lin[tuple(p)])
                    v = combine(out[q], uf_[e])
                    new.setdefault(q, []).append((cd, v))
            for q, l in new.items():
                v = out[q]
                for cd, x in l:
                    v = ite(cd, x, v)
                out[q] = v
        return out.reshape(op.shape)
    return f


RULES['scatter'] = scatter(lambda a, b: b)
RULES['scatter-add'] = RULES['scatter_add'] = scatter(add)
RULES['scatter-mul'] = RULES['scatter_mul'] = scatter(mul)
RULES['scatter-max'] = RULES['scatter_max'] = scatter(zmax)
RULES['scatter-min'] = RULES['scatter_min'] = scatter(zmin)


@rule('dynamic_slice')
def _dslice(self, eqn, ins):
    op, st = ins[0], [s.reshape(-1)[0] for s in ins[1:]]
    ss = eqn.params['slice_sizes']
    st = [zmin(zmax(v, 0), d - s) for v, d, s in zip(st, op.shape, ss)]
    cands = [range(op.shape[d] - ss[d] + 1) if isz(st[d]) else [st[d]] for d in range(op.ndim)]
    import itertools
    acc = None
    for c in itertools.product(*cands):
        v = op[tuple(slice(a, a + s) for a, s in zip(c, ss))]
        if acc is None:
            acc = v.copy()
            continue
        cd = AND(*[EQ(x, k) for x, k in zip(st, c)])
        fa, fv = acc.reshape(-1), v.reshape(-1)
        acc = np.array([None] * fa.size, object)
        for i in range(fa.size):
            acc[i] = ite(cd, fv[i], fa[i])
        acc = acc.reshape(v.shape)
    return acc


@rule('dynamic_update_slice')
def _dus(self, eqn, ins):
    op, upd, st = ins[0], ins[1], [s.reshape(-1)[0] for s in ins[2:]]
    st = [zmin(zmax(v, 0), d - s) for v, d, s in zip(st, op.shape, upd.shape)]
    import itertools
    cands = [range(op.shape[d] - upd.shape[d] + 1) if isz(st[d]) else [st[d]] for d in range(op.ndim)]
    out = op.copy()
    for c in itertools.product(*cands):
        cd = AND(*[EQ(x, k) for x, k in zip(st, c)])
        for e in np.ndindex(*upd.shape):
            p = tuple(a + b for a, b in zip(c, e))
            out[p] = ite(cd, upd[e], out[p])
    return out


@rule('sort')
def _sort(self, eqn, ins):
    dim, nk = eqn.params['dimension'], eqn.params['num_keys']
    xs = [np.moveaxis(x, dim, -1).copy() for x in ins]
    n = xs[0].shape[-1]

    def before(a, b):        # lexicographic strict less
        r = False
        for k in range(nk - 1, -1, -1):
            r = OR(LT(a[k], b[k]), AND(EQ(a[k], b[k]), r))
        return r
    for i in np.ndindex(xs[0].shape[:-1]):
        cols = [[x[i + (k,)] for x in xs] for k in range(n)]
        # insertion network (stable: swap only when strictly smaller)
        for p in range(n):
            for q in range(n - 1 - p):
                c = before(cols[q + 1], cols[q])
                if c is False:
                    continue
                a, b = cols[q], cols[q + 1]
                cols[q] = [ite(c, y, x) for x, y in zip(a, b)]
                cols[q + 1] = [ite(c, x, y) for x, y in zip(a, b)]
        for j, x in enumerate(xs):
            for k in range(n):
                x[i + (k,)] = cols[k][j]
    return [np.moveaxis(x, -1, dim) for x in xs]


@rule('dot_general')
def _dot(self, eqn, ins):
    (lc, rc), (lb, rb) = eqn.params['dimension_numbers']
    a, b = ins
    lf = [d for d in range(a.ndim) if d not in lc and d not in lb]
    rf = [d for d in range(b.ndim) if d not in rc and d not in rb]
    A = np.transpose(a, list(lb) + lf + list(lc))
    B = np.transpose(b, list(rb) + rf + list(rc))
    nb = int(np.prod([a.shape[d] for d in lb])) if lb else 1
    n = int(np.prod([a.shape[d] for d in lc])) if lc else 1
    A, B = A.reshape(nb, -1, n), B.reshape(nb, -1, n)
    o = np.empty((nb, A.shape[1], B.shape[1]), object)
    for q, i, j in np.ndindex(*o.shape):
        o[q, i, j] = zsum([mul(A[q, i, k], B[q, j, k]) for k in range(n)])
    return o.reshape(eqn.outvars[0].aval.shape)


TAPS = {}


@rule('conv_general_dilated')
def _conv(self, eqn, ins):
    """taps found with the real primitive on basis kernels (a convolution is bilinear); a leading batch axis of the image is
    handled image by image"""
    x, k = ins
    p = dict(eqn.params)
    dn = p['dimension_numbers']
    if p['batch_group_count'] != 1 or p['feature_group_count'] != 1:
        raise SymError('grouped convolution')
    shp = eqn.outvars[0].aval.shape
    xb, ob = dn.lhs_spec[0], dn.out_spec[0]
    X = np.moveaxis(x, xb, 0)
    one = list(x.shape)
    one[xb] = 1
    oshp = list(shp)
    oshp[ob] = 1
    key = (tuple(one), k.shape, repr(sorted((a, repr(b)) for a, b in p.items())))
    if key not in TAPS:
        with jax.ensure_compile_time_eval():
            fn = jax.jit(lambda a, b: eqn.primitive.bind(a, b, **p))
            p['preferred_element_type'] = None
            pos = jnp.asarray(np.arange(1, int(np.prod(one)) + 1, dtype=np.float64).reshape(one))
            taps = [[] for _ in range(int(np.prod(oshp)))]
            e = np.zeros(k.size)
            for i in range(k.size):
                e[i] = 1
                for o, t in enumerate(np.rint(np.asarray(fn(pos, jnp.asarray(e.reshape(k.shape))))).astype(int).ravel()):
                    if t:
                        taps[o].append((i, t - 1))
                e[i] = 0
        TAPS[key] = taps
    kf = k.reshape(-1)
    outs = []
    for b in range(x.shape[xb]):
        xf = np.moveaxis(X[b:b + 1], 0, xb).reshape(-1)
        o = np.empty(len(TAPS[key]), object)
        for n, ts in enumerate(TAPS[key]):
            o[n] = zsum([mul(kf[i], xf[t]) for i, t in ts])
        outs.append(o.reshape(oshp))
    return np.concatenate(outs, axis=ob)


# ------------------------------------------------------------ calls
def _inner(get):
    def f(self, eqn, ins):
        cj = get(eqn)
        if hasattr(cj, 'consts'):
            return self.call(cj.jaxpr, [conc(c) for c in cj.consts], ins)
        return self.call(cj, [], ins)
    return f


for _n, _k in (('pjit', 'jaxpr'), ('closed_call', 'call_jaxpr'), ('core_closed_call', 'call_jaxpr'),
               ('custom_jvp_call', 'call_jaxpr'), ('custom_vjp_call_jaxpr', 'fun_jaxpr'),
               ('custom_vjp_call', 'call_jaxpr'), ('remat', 'jaxpr'), ('checkpoint', 'jaxpr')):
    RULES[_n] = _inner(lambda e, k=_k: e.params[k])


@rule('cond')
def _cond(self, eqn, ins):
    br = eqn.params['branches']
    i = ins[0].reshape(-1)[0]
    if not isz(i):
        i = min(max(int(i), 0), len(br) - 1)
        return self.call(br[i].jaxpr, [conc(c) for c in br[i].consts], ins[1:])
    outs = [self.call(b.jaxpr, [conc(c) for c in b.consts], ins[1:]) for b in br]
    res = []
    for tup in zip(*outs):
        r = tup[-1].reshape(-1).copy()
        for k in range(len(br) - 2, -1, -1):
            f = tup[k].reshape(-1)
            c = LE(toint(i), k)
            r = np.array([ite(c, a, b) for a, b in zip(f, r)] + [None], object)[:-1]
        res.append(r.reshape(tup[0].shape))
    return res


@rule('scan')
def _scan(self, eqn, ins):
    p = eqn.params
    cj, nc, ncar, n = p['jaxpr'], p['num_consts'], p['num_carry'], p['length']
    consts, car, xs = ins[:nc], list(ins[nc:nc + ncar]), ins[nc + ncar:]
    ys = [np.empty(v.aval.shape, object) for v in eqn.outvars[ncar:]]
    cc = [conc(c) for c in cj.consts]
    for i in (range(n - 1, -1, -1) if p['reverse'] else range(n)):
        outs = self.call(cj.jaxpr, cc, consts + car + [x[i] if isinstance(x[i], np.ndarray) else _sc(x[i]) for x in xs])
        car = outs[:ncar]
        for y, o in zip(ys, outs[ncar:]):
            y[i] = o if o.shape else o.reshape(-1)[0]
    return car + ys


def _sc(v):
    o = np.empty((), object)
    o[()] = v
    return o


@rule('while')
def _while(self, eqn, ins):
    p = eqn.params
    nc, nb = p['cond_nconsts'], p['body_nconsts']
    c, b, x = ins[:nc], ins[nc:nc + nb], ins[nc + nb:]
    cj, bj = p['cond_jaxpr'], p['body_jaxpr']
    for _ in range(4000):
        t = self.call(cj.jaxpr, [conc(k) for k in cj.consts], list(c) + list(x))[0].reshape(-1)[0]
        if isz(t):
            t = z3.simplify(t)
            if not (z3.is_true(t) or z3.is_false(t)):
                raise SymError('while loop with a symbolic condition')
            t = z3.is_true(t)
        if not t:
            return x
        x = self.call(bj.jaxpr, [conc(k) for k in bj.consts], list(b) + list(x))
    raise SymError('while loop bound exceeded')


# ------------------------------------------------------------ random draws
def keypath(k):
    a, b = k
    if isinstance(a, KeyE) and isinstance(b, KeyE) and a.path == b.path and (a.half, b.half) == (0, 1):
        return a.path
    if isinstance(a, (int, np.integer)):
        return ('const', int(a), int(b))
    raise SymError('malformed random key')


def pname(p):
    return '/'.join(str(x) for x in p).replace(' ', '')


def keyrows(k):
    return [keypath(r) for r in k.reshape(-1, 2)]


def keyout(shape, paths):
    o = np.empty((len(paths), 2), object)
    for i, p in enumerate(paths):
        o[i, 0], o[i, 1] = KeyE(p, 0), KeyE(p, 1)
    return o.reshape(shape)


@rule('rng_split')
def _split(self, eqn, ins):
    n = eqn.params['n']
    return keyout(eqn.outvars[0].aval.shape, [p + (('s', n, i),) for p in keyrows(ins[0]) for i in range(n)])


@rule('rng_fold_in')
def _fold(self, eqn, ins):
    d = ins[1].reshape(-1)
    return keyout(eqn.outvars[0].aval.shape, [p + (('f', int(d[i % len(d)])),) for i, p in enumerate(keyrows(ins[0]))])


def _draw(self, eqn, ins, kind, sort, contract):
    paths = keyrows(ins[0])
    shape = eqn.params['shape']
    n = int(np.prod(shape)) if shape else 1
    out = []
    for r, p in enumerate(paths):
        for i in range(n):
            k = (kind, p, n, i)
            v = self.draws.get(k)
            if v is None:
                v = self.fresh(kind, f'{kind}[{pname(p)}].{i}', sort)
                self.draws[k] = v
                self.asm += contract(v, r, i)
            out.append(v)
    o = np.empty(len(out), object)
    o[:] = out
    return o.reshape(eqn.outvars[0].aval.shape)


RULES['rng_uniform'] = lambda self, eqn, ins: _draw(self, eqn, ins, 'uniform', 'real', lambda v, r, i: [v >= 0, v < 1])
RULES['rng_normal'] = lambda self, eqn, ins: _draw(self, eqn, ins, 'normal', 'real', lambda v, r, i: [])


@rule('rng_randint')
def _randint(self, eqn, ins):
    paths = keyrows(ins[0])
    shape = eqn.params['shape']
    n = int(np.prod(shape)) if shape else 1

    def bound(a, r, i):
        a = a.reshape(len(paths), -1) if a.size >= len(paths) and a.size % len(paths) == 0 else a.reshape(1, -1)
        row = a[r % a.shape[0]]
        return row[i % len(row)]

    def contract(v, r, i):
        lo, hi = bound(ins[1], r, i), bound(ins[2], r, i)
        if not isz(lo) and not isz(hi) and hi <= lo:
            return [v == lo]                # jax.random.randint: an empty range yields minval
        return [GE(v, lo), LT(v, hi)]
    return _draw(self, eqn, ins, 'randint', 'int', contract)


@rule('rng_perm')
def _perm(self, eqn, ins):
    n, k = eqn.params['n'], eqn.params['k']
    out = []
    for p in keyrows(ins[0]):
        vs = self.draws.get(('perm', p, n))
        if vs is None:
            vs = [self.fresh('perm', f'perm[{pname(p)}].{i}', 'int') for i in range(n)]
            self.draws[('perm', p, n)] = vs
            self.asm += [z3.And(v >= 0, v < n) for v in vs]
            if n > 1:
                self.asm.append(z3.Distinct(vs))
        out += vs[:k]
    o = np.empty(len(out), object)
    o[:] = out
    return o.reshape(eqn.outvars[0].aval.shape)


@rule('rng_choice')
def _choice(self, eqn, ins):
    n = eqn.params['n']
    w = ins[1].reshape(-1, n)

    def contract(v, r, i):
        row = w[r % len(w)]
        return [GE(v, 0), LT(v, n)] + [NE(v, j) for j in range(n) if not isz(row[j]) and row[j] == 0]
    return _draw(self, eqn, ins, 'choice', 'int', contract)


# ------------------------------------------------------------ queries
def symreal(name, shape):
    o = np.empty(shape, object)
    for i in np.ndindex(*shape):
        o[i] = z3.Real(name + ''.join(f'_{k}' for k in i))
    return o


def symint(name, shape):
    o = np.empty(shape, object)
    for i in np.ndindex(*shape):
        o[i] = z3.Int(name + ''.join(f'_{k}' for k in i))
    return o


def key(name='k'):
    return keyout((2,), [(name,)])


def solve(asm, neg, timeout=60000):
    """'unsat' when no assignment satisfies the assumptions and the negated property; (verdict, model)."""
    s = z3.SolverFor('QF_BV') if BV[0] else z3.Solver()
    s.set('timeout', timeout)
    for a in asm:
        s.add(num(a) if not isz(a) else a)
    s.add(num(neg) if not isz(neg) else neg)
    t = time.time()
    r = str(s.check())
    STATS.time += time.time() - t
    STATS.queries += 1
    setattr(STATS, r, getattr(STATS, r) + 1)
    return r, (s.model() if r == 'sat' else None)
