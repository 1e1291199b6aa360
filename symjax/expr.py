"""Symbolic real values: sparse Laurent polynomials over interned atoms.

A value is a python number (bool/int/Fraction; float only for +-inf and nan) or a P.  A P is a finite
sum  sum_i c_i * prod_j atom_j ** e_ij  with rational c and rational exponents (fractional exponents only
on atoms that are positive).  Atoms: symbols, exp(mono), log(.), sin(.) ..., 'def' atoms (a name for a
polynomial, used for denominators and roots), max/min atoms, law-mode uniforms, uninterpreted functions.
"""
from fractions import Fraction
import decimal
import math

INF = float('inf')
NAN = float('nan')


class SymError(Exception):
    """The symbolic engine cannot represent this computation."""


class Atom:
    __slots__ = ('id', 'kind', 'data', 'pos', 'name', 'unifs')

    def __init__(self, id, kind, data, pos, name):
        self.id, self.kind, self.data, self.pos, self.name = id, kind, data, pos, name
        self.unifs = frozenset()

    def __repr__(self):
        return self.name


ATOMS = []
_INTERN = {}
_DEFS = set()      # ids of def atoms


def mk_atom(kind, data, pos=False, name=None):
    k = (kind, data)
    a = _INTERN.get(k)
    if a is None:
        a = Atom(len(ATOMS), kind, data, pos, name or f'{kind}{len(ATOMS)}')
        ATOMS.append(a)
        _INTERN[k] = a
        if kind == 'def':
            _DEFS.add(a.id)
        if kind == 'unif':
            a.unifs = frozenset([a.id])
        else:
            a.unifs = frozenset() if kind == 'sym' else _unifs_of_data(data)
    elif pos and not a.pos:
        a.pos = True
    return a


def _unifs_of_data(data):
    if isinstance(data, P):
        return data.unifs()
    if isinstance(data, tuple):
        s = frozenset()
        for d in data:
            if isinstance(d, P):
                s |= d.unifs()
            elif isinstance(d, tuple):
                if len(d) == 2 and isinstance(d[0], int) and d and not isinstance(d[1], (tuple, P)):
                    try:
                        s |= ATOMS[d[0]].unifs
                    except IndexError:
                        pass
                else:
                    s |= _unifs_of_data(d)
        return s
    return frozenset()


def _fr(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


class P:
    __slots__ = ('t', '_h', '_u')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._u = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        if isinstance(o, P):
            return self is o or (hash(self) == hash(o) and self.t == o.t)
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def unifs(self):
        if self._u is None:
            s = frozenset()
            for m in self.t:
                for a, _ in m:
                    u = ATOMS[a].unifs
                    if u:
                        s |= u
            self._u = s
        return self._u

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    def __repr__(self):
        return show(self)

    def __add__(self, o): return add(self, o)
    __radd__ = __add__
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    __rmul__ = __mul__
    def __neg__(self): return neg(self)
    def __truediv__(self, o): return div(self, o)
    def __rtruediv__(self, o): return div(o, self)
    def __pow__(self, k): return power(self, k)


def show(x, limit=40):
    if not isinstance(x, P):
        return str(x)
    out = []
    for i, (m, c) in enumerate(sorted(x.t.items(), key=lambda kv: [(a, float(e)) for a, e in kv[0]])):
        if i >= limit:
            out.append(f'... ({len(x.t)} terms)')
            break
        s = '*'.join(ATOMS[a].name + (f'^{e}' if e != 1 else '') for a, e in m)
        out.append(f'{c}*{s}' if s and c != 1 else (s or str(c)))
    return ' + '.join(out)


def isnum(x):
    return not isinstance(x, P)


def isnonfinite(x):
    return isinstance(x, float) and (x != x or x in (INF, -INF))


def _mk(t):
    if not t:
        return 0
    if len(t) == 1 and () in t:
        return _fr(t[()])
    return P(t)


def poly(x):
    if isinstance(x, P):
        return x.t
    return {(): x} if x != 0 else {}


def sym(name, pos=False):
    return P({((mk_atom('sym', name, pos, name).id, 1),): 1})


def atomP(a, e=1):
    return P({((a.id, e),): 1})


def num(x):
    """normalise a python number."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, float):
        if x != x or x in (INF, -INF):
            return x
        return _fr(Fraction(x))
    return _fr(x)


def add(a, b):
    if not isinstance(a, P) and not isinstance(b, P):
        return num(a + b) if not isinstance(a, float) and not isinstance(b, float) else _addnf(a, b)
    if isnonfinite(a):
        return a
    if isnonfinite(b):
        return b
    ta, tb = poly(a), poly(b)
    if len(ta) < len(tb):
        ta, tb = tb, ta
    t = dict(ta)
    for m, c in tb.items():
        v = t.get(m)
        if v is None:
            t[m] = c
        else:
            v = v + c
            if v == 0:
                del t[m]
            else:
                t[m] = v
    return _mk(t)


def _addnf(a, b):
    return float(a) + float(b)


def neg(a):
    if not isinstance(a, P):
        return -a if not isinstance(a, bool) else -int(a)
    return P({m: -c for m, c in a.t.items()})


def sub(a, b):
    return add(a, neg(b))


def mono_mul(m1, m2):
    """Returns (mono, needs_expansion)."""
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    d = dict(m1)
    exp_needed = False
    for a, e in m2:
        if a in d:
            v = d[a] + e
            if v == 0:
                del d[a]
            else:
                v = _fr(v)
                d[a] = v
                if a in _DEFS and v >= 1:
                    exp_needed = True
        else:
            d[a] = e
            if a in _DEFS and e >= 1:
                exp_needed = True
    return tuple(sorted(d.items())), exp_needed


def _expand_defs(m, c):
    """mono with def atoms of exponent >= 1: substitute the definition."""
    rest, r = [], c
    for a, e in m:
        if a in _DEFS and e >= 1:
            k = math.floor(e)
            r = mul(r, ipow(ATOMS[a].data if isinstance(ATOMS[a].data, P) else ATOMS[a].data, k))
            if e - k != 0:
                rest.append((a, _fr(e - k)))
        else:
            rest.append((a, e))
    return mul(r, P({tuple(rest): 1}) if rest else 1)


def mul(a, b):
    ia, ib = isinstance(a, P), isinstance(b, P)
    if not ia and not ib:
        if isinstance(a, float) or isinstance(b, float):
            return _mulnf(a, b)
        return num(a * b)
    if not ia:
        a, b, ia, ib = b, a, ib, ia
    if not ib:
        if isnonfinite(b):
            if b != b:
                return NAN
            s = CUR.sign(a)
            if s is None:
                raise SymError('inf * value of unknown sign')
            return NAN if s == 0 else (b if s > 0 else -b)
        if b == 0:
            return 0
        if b == 1:
            return a
        return P({m: _fr(c * b) for m, c in a.t.items()})
    t = {}
    extra = 0
    bt = list(b.t.items())
    for m1, c1 in a.t.items():
        for m2, c2 in bt:
            m, ex = mono_mul(m1, m2)
            c = c1 * c2
            if ex:
                extra = add(extra, _expand_defs(m, c))
                continue
            v = t.get(m)
            if v is None:
                t[m] = c
            else:
                v = v + c
                if v == 0:
                    del t[m]
                else:
                    t[m] = v
    r = _mk(t)
    return add(r, extra) if (isinstance(extra, P) or extra != 0) else r


def _mulnf(a, b):
    return float(a) * float(b)


def ipow(a, k):
    if k == 0:
        return 1
    if k < 0:
        return div(1, ipow(a, -k))
    r = None
    base = a
    while k:
        if k & 1:
            r = base if r is None else mul(r, base)
        k >>= 1
        if k:
            base = mul(base, base)
    return r


def content(p):
    """p = c * mono * q  with q primitive (integer coprime coefficients, no monomial factor, canonical sign).
    Sign of c is chosen positive when q can be seen positive; leading coefficient is made positive otherwise."""
    ms = list(p.t.items())
    # monomial gcd: min exponent per atom over all terms
    first = dict(ms[0][0])
    common = {}
    for a, e in first.items():
        mn = e
        ok = True
        for m, _ in ms[1:]:
            ee = 0
            for aa, x in m:
                if aa == a:
                    ee = x
                    break
            if ee < mn:
                mn = ee
        common[a] = mn
    for m, _ in ms[1:]:
        for a, e in m:
            if a not in first and e < 0:
                common[a] = min(common.get(a, 0), e)
    common = {a: e for a, e in common.items() if e != 0}
    g = 0
    l = 1
    for _, c in ms:
        f = Fraction(c)
        l = l * f.denominator // math.gcd(l, f.denominator)
    for _, c in ms:
        g = math.gcd(g, int(Fraction(c) * l))
    cont = Fraction(g, l)
    npos = sum(1 for _, c in ms if c > 0)
    lead = max(ms, key=lambda kv: [(a, e) for a, e in kv[0]])[1]
    if npos == 0 or (npos != len(ms) and lead < 0):
        cont = -cont
    inv = {a: -e for a, e in common.items()}
    minv = tuple(sorted(inv.items()))
    q = {}
    for m, c in ms:
        mm, ex = mono_mul(m, minv)
        q[mm] = _fr(Fraction(c) / cont)
    mono = tuple(sorted(common.items()))
    q = _mk(q)
    if 0 < npos < len(ms) <= 60:
        d = _INTERN.get(('def', neg(q)))
        v = constval(q)
        if v is not None and v < 0 or d is not None and d.pos and not evidently_pos(q):
            cont, q = -cont, neg(q)
    return _fr(cont), mono, q


def mono_inv(m):
    return tuple((a, -e) for a, e in m)


_CV = {}


def _atomval(a):
    """a constant atom as a 90-digit decimal (correctly rounded elementary functions), else None"""
    if a in _CV:
        return _CV[a]
    at, v = ATOMS[a], None
    if at.kind == 'exp' and at.data == ():
        v = _DEC.exp(decimal.Decimal(1))
    elif at.kind == 'log' and not isinstance(at.data, P):
        v = _DEC.ln(decimal.Decimal(at.data))
    elif at.kind == 'def':
        v = decimal.Decimal(at.data) if not isinstance(at.data, P) else constval(at.data)
        if v is not None and v <= 0:
            v = None
    _CV[a] = v
    return v


def constval(q):
    """numerical value of a constant (a polynomial in e, logarithms and roots of numbers), None when it is not one or
    when it is too close to zero to tell its sign"""
    tot = mag = decimal.Decimal(0)
    for m, c in q.t.items():
        f = Fraction(c)
        v = _DEC.divide(decimal.Decimal(f.numerator), decimal.Decimal(f.denominator))
        for a, e in m:
            w = _atomval(a)
            if w is None or w <= 0:
                return None
            f = Fraction(e)
            v = _DEC.multiply(v, _DEC.power(w, _DEC.divide(decimal.Decimal(f.numerator), decimal.Decimal(f.denominator))))
        tot, mag = _DEC.add(tot, v), _DEC.add(mag, abs(v))
    return tot if abs(tot) > mag * decimal.Decimal('1e-60') else None


_DEC = decimal.Context(prec=90)


def monoP(m, c=1):
    if not m:
        return _fr(c)
    return P({m: c})


def defatom(q):
    """Atom naming the primitive polynomial q (len>=2) or the prime number q."""
    nm = f'D{len(ATOMS)}'
    pos = True if not isinstance(q, P) else _positive(q)
    return mk_atom('def', q, pos, nm)


def evidently_pos(q):
    if not isinstance(q, P):
        return q > 0
    for m, c in q.t.items():
        if c < 0:
            return False
        for a, e in m:
            if not ATOMS[a].pos and not (isinstance(e, int) and e % 2 == 0):
                return False
            if not ATOMS[a].pos:
                return False
    return True


def _positive(q):
    if evidently_pos(q):
        return True
    v = constval(q) if len(q.t) <= 60 else None
    return v is not None and v > 0


def div(a, b):
    if not isinstance(b, P):
        if isinstance(a, float) or isinstance(b, float):
            if isnonfinite(b):
                if not isinstance(a, P):
                    return NAN if (isnonfinite(a) or b != b) else 0
                return NAN if b != b else 0
            if b == 0:
                return NAN if a != a else (a if a > 0 else a)
            return mul(a, Fraction(1) / Fraction(b))
        if b == 0:
            if isinstance(a, P):
                s = CUR.sign(a)
                if s is None:
                    raise SymError('division by zero of unknown sign')
                return NAN if s == 0 else (INF if s > 0 else -INF)
            return NAN if a == 0 else (INF if a > 0 else -INF)
        return mul(a, Fraction(1) / Fraction(b))
    if not isinstance(a, P) and not isnonfinite(a) and a == 0:
        CUR.oblige_nonzero(b)
        return 0
    if len(b.t) == 1:
        (m, c), = b.t.items()
        CUR.oblige_nonzero(b)
        return mul(a, P({mono_inv(m): _fr(Fraction(1) / c)}))
    c, m, q = content(b)
    # exact quotient?
    if isinstance(a, P):
        if a == b:
            CUR.oblige_nonzero(b)
            return 1
        qq = exact_div(a, q) if len(a.t) >= len(q.t) else None
        if qq is not None:
            CUR.oblige_nonzero(b)
            return mul(qq, monoP(mono_inv(m), _fr(Fraction(1) / c)))
    # clear def-atom denominators inside q is left to content() (negative exponents are pulled out)
    CUR.oblige_nonzero(b)
    d = defatom(q)
    inv_m, ex = mono_mul(mono_inv(m), ((d.id, -1),))
    return mul(a, P({inv_m: _fr(Fraction(1) / c)}))


def exact_div(a, q, maxsteps=400):
    """a / q when q divides a exactly (as Laurent polynomials, with a monomial order); else None."""
    if not isinstance(a, P):
        return None
    qk = max(q.t, key=_order)
    qc = q.t[qk]
    qi = mono_inv(qk)
    qrest = [(m, c) for m, c in q.t.items() if m != qk]
    r = dict(a.t)
    out = {}
    # degree bound per atom to make sure we terminate
    qat = q.atoms()
    lo = {x: min((dict(m).get(x, 0) for m in a.t)) - min(dict(m).get(x, 0) for m in q.t) for x in qat}
    hi = {x: max((dict(m).get(x, 0) for m in a.t)) - max(dict(m).get(x, 0) for m in q.t) for x in qat}
    for x in qat:
        if lo[x] > hi[x]:
            return None
    steps = 0
    while r:
        steps += 1
        if steps > maxsteps:
            return None
        k = max(r, key=_order)
        m, ex = mono_mul(k, qi)
        dm = dict(m)
        for x in qat:
            e = dm.get(x, 0)
            if e < lo[x] or e > hi[x]:
                return None
        c = Fraction(r[k]) / qc
        out[m] = _fr(out.get(m, 0) + c)
        del r[k]
        for m2, c2 in qrest:
            mm, _ = mono_mul(m, m2)
            v = r.get(mm, 0) - c * c2
            if v == 0:
                r.pop(mm, None)
            else:
                r[mm] = v
    return _mk(out)


def _order(m):
    return tuple(sorted(((-a, e) for a, e in m), reverse=True)), 0


# lexicographic order on exponent vectors (atom id ascending = most significant)
class _Ord:
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m

    def __lt__(self, o):
        i = j = 0
        x, y = self.m, o.m
        while i < len(x) or j < len(y):
            if j >= len(y) or (i < len(x) and x[i][0] < y[j][0]):
                return x[i][1] < 0
            if i >= len(x) or y[j][0] < x[i][0]:
                return 0 < y[j][1]
            if x[i][1] != y[j][1]:
                return x[i][1] < y[j][1]
            i += 1
            j += 1
        return False


_order = _Ord


def simp(p):
    """Cancel def-atom denominators where the numerator is an exact multiple."""
    if not isinstance(p, P):
        return p
    changed = True
    while changed and isinstance(p, P):
        changed = False
        dens = {}
        for m in p.t:
            for a, e in m:
                if a in _DEFS and e < 0 and isinstance(ATOMS[a].data, P):
                    if a not in dens or e < dens[a]:
                        dens[a] = e
        for a, emin in sorted(dens.items(), reverse=True):
            q = ATOMS[a].data
            top, rest = {}, {}
            for m, c in p.t.items():
                (top if dict(m).get(a, 0) == emin else rest)[m] = c
            if len(top) < 2:
                continue
            tp = mul(_mk(top), P({((a, -emin),): 1}) if False else 1)
            stripped = {}
            for m, c in top.items():
                stripped[tuple(x for x in m if x[0] != a)] = c
            qq = exact_div(_mk(stripped), q) if len(stripped) >= 2 else None
            if qq is not None:
                e2 = _fr(emin + 1)
                repl = mul(qq, P({((a, e2),): 1}) if e2 != 0 else 1)
                p = add(_mk(rest), repl)
                changed = True
                break
    return p


def clear_den(p):
    """Multiply by def atoms to remove negative (and >=1) powers, expanding definitions; result has no def atoms in
    denominators.  The factor is a product of nonzero quantities."""
    for _ in range(200):
        if not isinstance(p, P):
            return p
        low = {}
        for m in p.t:
            for a, e in m:
                if e < 0:
                    if a not in low or e < low[a]:
                        low[a] = e
        # youngest def atom first: its definition may include older ones
        defs = [a for a in low if a in _DEFS]
        if defs:
            a = max(defs)
            k = -math.floor(low[a])
            groups = {}
            for m, c in p.t.items():
                e = dict(m).get(a, 0)
                mm = tuple(x for x in m if x[0] != a)
                groups.setdefault(e, {})[mm] = c
            r = 0
            for e, g in groups.items():
                ne = e + k
                kk = math.floor(ne)
                fr = _fr(ne - kk)
                term = mul(_mk(g), ipow(ATOMS[a].data, kk))
                if fr != 0:
                    term = mul(term, P({((a, fr),): 1}))
                r = add(r, term)
            p = r
            continue
        others = {a: e for a, e in low.items()}
        if others:
            f = tuple(sorted((a, -e) for a, e in others.items()))
            p = mul(p, P({f: 1}))
            continue
        return p
    raise SymError('clear_den did not terminate')


def canon(p, limit=400):
    """Canonical form of a rational function: one expanded numerator over powers of irreducible-looking denominators,
    so that equal arguments of exp get the same atom."""
    p = simp(p)
    if not isinstance(p, P) or len(p.t) > limit:
        return p
    dens = []
    for _ in range(50):
        low = {}
        for m in p.t:
            for a, e in m:
                if a in _DEFS and isinstance(e, int) and e < 0 and isinstance(ATOMS[a].data, P):
                    low[a] = min(low.get(a, 0), e)
        if not low:
            break
        a = max(low)
        k = -low[a]
        r = 0
        groups = {}
        for m, c in p.t.items():
            d = dict(m)
            e = d.pop(a, 0)
            if not isinstance(e, int):
                return p
            groups.setdefault(e, {})[tuple(sorted(d.items()))] = c
        for e, g in groups.items():
            r = add(r, mul(_mk(g), ipow(ATOMS[a].data, e + k)))
        p = r
        dens.append([a, k])
        if not isinstance(p, P) or len(p.t) > 20 * limit:
            break
    for d in dens:
        while d[1] > 0 and isinstance(p, P):
            q = exact_div(p, ATOMS[d[0]].data)
            if q is None:
                break
            p = q
            d[1] -= 1
    for a, k in dens:
        if k:
            p = mul(p, P({((a, -k),): 1}))
    return p


def merge_exps(p):
    """Combine the exp factors of each monomial into the exp of the canonical sum of their arguments."""
    if not isinstance(p, P):
        return p
    r = 0
    for m, c in p.t.items():
        ex = [(a, e) for a, e in m if ATOMS[a].kind == 'exp']
        if len(ex) < 2:
            r = add(r, P({m: c}))
            continue
        arg = 0
        for a, e in ex:
            arg = add(arg, mul(e, monoP(ATOMS[a].data)))
        r = add(r, mul(monoP(tuple(x for x in m if ATOMS[x[0]].kind != 'exp'), c), exp(canon(arg))))
    return r


# ---------------------------------------------------------------- functions
def primes(n):
    f, d = {}, 2
    while d * d <= n and d < 10 ** 5:
        while n % d == 0:
            f[d] = f.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


def exp(x):
    if not isinstance(x, P):
        if isinstance(x, float):
            return NAN if x != x else (INF if x > 0 else 0)
        if x == 0:
            return 1
        x = P({(): x})
    x = canon(x) if any(a in _DEFS for a in x.atoms()) else x
    if not isinstance(x, P):
        return exp(x)
    r = 1
    mon = {}
    for m, c in x.t.items():
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'log':
            r = mul(r, power(ATOMS[m[0][0]].data, c))
        elif len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'min' and c > 0 and _is_int(c):
            # exp is increasing: exp(min(a,b)) = min(exp a, exp b)
            r = mul(r, ipow(mkminmax('min', [exp(z) for z in ATOMS[m[0][0]].data]), int(c)))
        else:
            a = mk_atom('exp', m, True, 'exp[' + show(monoP(m)) + ']')
            mon[a.id] = c
    if mon:
        r = mul(r, P({tuple(sorted((a, _fr(c)) for a, c in mon.items())): 1}))
    return r


def _is_int(c):
    return isinstance(c, int) or (isinstance(c, Fraction) and c.denominator == 1)


def log(x):
    if not isinstance(x, P):
        if isinstance(x, float):
            return NAN if (x != x or x < 0) else INF
        if x < 0:
            return NAN
        if x == 0:
            return -INF
        x = Fraction(x)
        t = {}
        for p_, k in primes(x.numerator).items():
            t[p_] = t.get(p_, 0) + k
        for p_, k in primes(x.denominator).items():
            t[p_] = t.get(p_, 0) - k
        r = 0
        for p_, k in t.items():
            r = add(r, mul(k, atomP(mk_atom('log', p_, False, f'log({p_})'))))
        return r
    x = simp(x)
    if not isinstance(x, P):
        return log(x)
    c, m, q = content(x) if len(x.t) > 1 else (list(x.t.values())[0], list(x.t.keys())[0], 1)
    CUR.oblige_pos(x)
    if c < 0 or any(not CUR.atom_pos(a) for a, e in m):
        # cannot split safely
        sq = [(a, e) for a, e in m if not CUR.atom_pos(a)]
        if c > 0 and len(sq) >= 1 and all(_is_int(e) and e % 2 == 0 for a, e in sq):
            base = monoP(tuple(sq))
            r = atomP(mk_atom('log', base, False, f'log({show(base)})'))
            rest = tuple(x_ for x_ in m if x_ not in sq)
            m = rest
            r0 = r
        else:
            return atomP(mk_atom('log', x, False, f'log({show(x)})'))
    else:
        r0 = 0
    r = add(r0, log(c))
    for a, e in m:
        at = ATOMS[a]
        if at.kind == 'exp':
            r = add(r, mul(e, monoP(at.data)))
        elif at.kind == 'def':
            r = add(r, mul(e, log(at.data) if not isinstance(at.data, P) else _logatom(at.data)))
        else:
            r = add(r, mul(e, _logatom(atomP(at))))
    if isinstance(q, P):
        r = add(r, _logatom(q))
    return r


def _logatom(q):
    return atomP(mk_atom('log', q, False, f'log({show(q, 6)})'))


def power(x, k):
    """x ** k for rational constant k."""
    if isinstance(k, P):
        if not isinstance(x, P) and x == 0:
            s = CUR.sign(k)
            if s is not None and s > 0:
                return 0
        return exp(mul(k, log(x)))
    if _is_int(k):
        return ipow(x, int(k))
    if isinstance(k, float):
        raise SymError('non finite exponent')
    k = Fraction(k)
    if not isinstance(x, P):
        if isinstance(x, float):
            if x == INF:
                return INF if k > 0 else 0
            return NAN
        if x < 0:
            return NAN
        if x == 0:
            return 0 if k > 0 else INF
        f = Fraction(x)
        t = {}
        for p_, n in primes(f.numerator).items():
            t[p_] = t.get(p_, 0) + n * k
        for p_, n in primes(f.denominator).items():
            t[p_] = t.get(p_, 0) - n * k
        c, mon = Fraction(1), {}
        for p_, e in t.items():
            fl = math.floor(e)
            c *= Fraction(p_) ** fl
            if e - fl:
                mon[defatom(p_).id] = _fr(e - fl)
        if not mon:
            return _fr(c)
        return P({tuple(sorted(mon.items())): _fr(c)})
    x = simp(x)
    if not isinstance(x, P):
        return power(x, k)
    c, m, q = content(x) if len(x.t) > 1 else (list(x.t.values())[0], list(x.t.keys())[0], 1)
    if k.denominator % 2 == 0:
        CUR.oblige_nonneg(x)
    if c < 0 and isinstance(q, P):
        c, q = -c, neg(q)      # x >= 0 together with positive monomial means -q is the positive one
        pq = True
    if c < 0:
        raise SymError(f'root of negative {show(x)}')
    r = power(c, k)
    mon, e_extra = [], 1
    for a, e in m:
        if CUR.atom_pos(a):
            at = ATOMS[a]
            ne = _fr(e * k)
            mon.append((a, ne))
        else:
            ne = e * k
            if _is_int(e) and e % 2 == 0 and k.denominator == 2:
                # (a^2j)^(n/2) = |a|^(jn)
                r = mul(r, ipow(absval(atomP(ATOMS[a])), int(ne)) if _is_int(ne) else None)
            else:
                raise SymError(f'fractional power of atom of unknown sign {ATOMS[a]}')
    if mon:
        r = mul(r, P({tuple(sorted(mon)): 1}))
    if isinstance(q, P):
        d = defatom(q)
        # perfect square?
        if k.denominator == 2:
            s = poly_sqrt(q)
            if s is not None:
                return mul(r, ipow(absval(s), int(2 * k)))
        r = mul(r, P({((d.id, _fr(k)),): 1}))
    return r


def poly_sqrt(q):
    """exact polynomial square root (lex leading-term recursion), or None."""
    ms = sorted(q.t, key=_Ord, reverse=True)
    lead = ms[0]
    c = Fraction(q.t[lead])
    if c <= 0:
        return None
    rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if rn * rn != c.numerator or rd * rd != c.denominator:
        return None
    half = []
    for a, e in lead:
        h = Fraction(e) / 2
        if h.denominator != 1 and Fraction(e).denominator == 1:
            return None
        half.append((a, _fr(h)))
    s = monoP(tuple(half), Fraction(rn, rd))
    lt_m, lt_c = tuple(half), Fraction(rn, rd)
    for _ in range(60):
        r = sub(q, mul(s, s))
        if not isinstance(r, P):
            if r == 0:
                return s
            rm, rc = (), r
        else:
            rm = max(r.t, key=_Ord)
            rc = r.t[rm]
        m, _x = mono_mul(rm, mono_inv(lt_m))
        if not _Ord(m) < _Ord(lt_m):
            return None
        if any(Fraction(e) < 0 for _, e in m):
            return None
        s = add(s, monoP(m, _fr(Fraction(rc) / (2 * lt_c))))
    return None


def sqrt(x):
    return power(x, Fraction(1, 2))


def absval(x):
    if not isinstance(x, P):
        return abs(x)
    s = CUR.sign(x)
    if s is None:
        return mkminmax('max', [x, neg(x)])
    return x if s > 0 else (neg(x) if s < 0 else 0)


def mkminmax(kind, xs):
    xs = list(xs)
    if any(isinstance(x, float) and x != x for x in xs):
        return NAN
    bad = -INF if kind == 'max' else INF
    good = -bad
    if any((not isinstance(x, P)) and x == good for x in xs):
        return good
    xs = [x for x in xs if isinstance(x, P) or x != bad]
    if not xs:
        return bad
    nums = [x for x in xs if not isinstance(x, P)]
    ps = []
    for x in xs:
        if isinstance(x, P) and x not in ps:
            ps.append(x)
    if nums:
        v = max(nums) if kind == 'max' else min(nums)
        if not ps:
            return v
        ps.append(v)
    if len(ps) == 1:
        return ps[0]
    if len(ps) == 2:
        s = CUR.sign(sub(ps[0], ps[1]))
        if s is not None:
            if kind == 'max':
                return ps[0] if s >= 0 else ps[1]
            return ps[0] if s <= 0 else ps[1]
    key = tuple(sorted(ps, key=lambda z: (str(type(z)), hash(z))))
    pos = False
    if kind == 'max':
        pos = any(CUR.known_pos(z) for z in ps)
    else:
        pos = all(CUR.known_pos(z) for z in ps)
    return atomP(mk_atom(kind, key, pos, f'{kind}{len(ATOMS)}'))


def fn(name, *args, pos=False):
    """opaque function of symbolic args."""
    return atomP(mk_atom('fn', (name,) + tuple(args), pos, f'{name}({",".join(show(a, 3) for a in args)})'))


def _odd_even(name, x, odd):
    c, m, q = content(x) if len(x.t) > 1 else (list(x.t.values())[0], None, None)
    flip = c < 0
    y = neg(x) if flip else x
    r = fn(name, y)
    return neg(r) if (flip and odd) else r


def sin(x):
    if not isinstance(x, P):
        return 0 if x == 0 else _odd_even('sin', P({(): x}), True)
    return _odd_even('sin', x, True)


def cos(x):
    if not isinstance(x, P):
        return 1 if x == 0 else _odd_even('cos', P({(): x}), False)
    return _odd_even('cos', x, False)


def tanh(x):
    if not isinstance(x, P):
        if x == 0:
            return 0
        x = P({(): x})
    e = exp(mul(2, x))
    return div(sub(e, 1), add(e, 1))


def logistic(x):
    return div(1, add(1, exp(neg(x))))


def oddfn(name):
    def f(x):
        if not isinstance(x, P):
            if x == 0:
                return 0
            x = P({(): x})
        return _odd_even(name, x, True)
    return f


erf = oddfn('erf')
erf_inv = oddfn('erf_inv')
atan = oddfn('atan')
sinh = lambda x: div(sub(exp(x), exp(neg(x))), 2)
cosh = lambda x: div(add(exp(x), exp(neg(x))), 2)


def subst_num(p, env, cache=None):
    """Numeric (float) evaluation; env maps atom id -> float for base atoms."""
    if cache is None:
        cache = {}
    if not isinstance(p, P):
        return float(p)
    s = 0.0
    for m, c in p.t.items():
        v = float(c)
        for a, e in m:
            v *= _anum(a, env, cache) ** float(e)
        s += v
    return s


def _anum(a, env, cache):
    if a in env:
        return env[a]
    if a in cache:
        return cache[a]
    at = ATOMS[a]
    ev = lambda z: subst_num(z, env, cache) if isinstance(z, P) else float(z)
    if at.kind == 'exp':
        v = math.exp(ev(monoP(at.data)))
    elif at.kind == 'log':
        v = math.log(ev(at.data))
    elif at.kind == 'def':
        v = ev(at.data)
    elif at.kind == 'max':
        v = max(ev(z) for z in at.data)
    elif at.kind == 'min':
        v = min(ev(z) for z in at.data)
    elif at.kind == 'sym' and at.data == 'pi':
        v = math.pi
    elif at.kind == 'fn':
        f = at.data[0]
        args = [ev(z) for z in at.data[1:]]
        if f in ('sin', 'cos', 'erf', 'atan'):
            v = getattr(math, f)(*args)
        elif f == 'erf_inv':
            from statistics import NormalDist
            v = NormalDist().inv_cdf((args[0] + 1) / 2) / math.sqrt(2)
        elif ('fn', f) in env:
            v = env[('fn', f)](*args)
        else:
            raise SymError(f'no numeric value for {at}')
    else:
        raise SymError(f'no numeric value for {at}')
    cache[a] = v
    return v


def substP(p, env, cache=None):
    """symbolic substitution of atoms (id -> value)."""
    if cache is None:
        cache = {}
    if not isinstance(p, P):
        return p
    r = 0
    for m, c in p.t.items():
        v = c
        for a, e in m:
            w = _asub(a, env, cache)
            v = mul(v, power(w, e))
        r = add(r, v)
    return r


def _asub(a, env, cache):
    if a in env:
        return env[a]
    if a in cache:
        return cache[a]
    at = ATOMS[a]
    ev = lambda z: substP(z, env, cache)
    if at.kind in ('sym', 'unif'):
        v = atomP(at)
    elif at.kind == 'exp':
        v = exp(ev(monoP(at.data)))
    elif at.kind == 'log':
        v = log(ev(at.data))
    elif at.kind == 'def':
        v = ev(at.data) if isinstance(at.data, P) else atomP(at)
    elif at.kind in ('max', 'min'):
        v = mkminmax(at.kind, [ev(z) for z in at.data])
    elif at.kind == 'fn':
        v = atomP(mk_atom('fn', (at.data[0],) + tuple(ev(z) for z in at.data[1:]), at.pos, at.name + "'"))
    else:
        raise SymError(f'cannot substitute in {at}')
    cache[a] = v
    return v


PI = None


def pi():
    return atomP(mk_atom('sym', 'pi', True, 'pi'))


class _NoCtx:
    """Default context: no assumptions, no solver."""
    def sign(self, x):
        if not isinstance(x, P):
            return (x > 0) - (x < 0)
        if evidently_pos(x):
            return 1
        if evidently_pos(neg(x)):
            return -1
        return None

    def known_pos(self, x):
        return self.sign(x) == 1

    def atom_pos(self, a):
        return ATOMS[a].pos

    def oblige_nonzero(self, x): pass
    def oblige_pos(self, x): pass
    def oblige_nonneg(self, x): pass


class _Cur:
    def __init__(self):
        self.ctx = _NoCtx()

    def __getattr__(self, k):
        return getattr(self.ctx, k)


CUR = _Cur()


def linear_coeffs(p, ids):
    """p = sum_i c_i x_i + rest with c_i, rest free of the atoms ids; None when not of this form."""
    co = [0] * len(ids)
    rest = 0
    pos = {a: i for i, a in enumerate(ids)}
    for m, c in (p.t.items() if isinstance(p, P) else [((), p)]):
        hit = [(a, e) for a, e in m if a in pos]
        oth = [(a, e) for a, e in m if a not in pos]
        for a, e in oth:
            if _deep(a) & set(ids):
                return None
        q = monoP(tuple(oth), c)
        if not hit:
            rest = add(rest, q)
        elif len(hit) == 1 and hit[0][1] == 1:
            co[pos[hit[0][0]]] = add(co[pos[hit[0][0]]], q)
        else:
            return None
    return co, rest


def _deep(a):
    from .smt import closure
    return closure({a}) - {a}
