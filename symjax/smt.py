"""Solver context: path/region conditions over symbolic parameters, sign queries, verification conditions."""
import itertools, sys, time
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from fractions import Fraction
import z3
from . import expr as E
from .expr import P, ATOMS, SymError


class Split(Exception):
    """An undecided comparison on parameters: the driver explores both outcomes."""
    def __init__(self, cond):
        self.cond = cond


class Inconclusive(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = self.unsat = self.unknown = 0
        self.time = 0.0
        self.regions = 0
        self.vcs = 0
        self.vacuity = 0
        self.cvc5_queries = 0
        self.cvc5_disagree = 0


STATS = Stats()

# condition language: (op, P) with op in '<' '<=' '==' '!=' against 0; ('and', [..]) ('or', [..]) ('not', c); True/False
NEG = {'<': '>=', '<=': '>', '==': '!=', '!=': '==', '>=': '<', '>': '<='}


def negc(c):
    if isinstance(c, bool):
        return not c
    if c[0] in ('and', 'or'):
        return ('or' if c[0] == 'and' else 'and', [negc(x) for x in c[1]])
    if c[0] == 'not':
        return c[1]
    return (NEG[c[0]], c[1])


def lt(a, b): return ('<', E.sub(a, b))
def le(a, b): return ('<=', E.sub(a, b))
def gt(a, b): return ('<', E.sub(b, a))
def ge(a, b): return ('<=', E.sub(b, a))
def eq(a, b): return ('==', E.sub(a, b))
def ne(a, b): return ('!=', E.sub(a, b))
def pos(a): return ('>', a)


def loglinear(p):
    """contains logarithms of expressions, each alone in its monomial with a small integer coefficient."""
    found = False
    for m, c in p.t.items():
        logs = [a for a, e in m if ATOMS[a].kind == 'log' and isinstance(ATOMS[a].data, P)]
        if not logs:
            continue
        if len(m) != 1 or m[0][1] != 1 or abs(c) > 3 or not E._is_int(c):
            return False
        found = True
    return found


class Tr:
    """P -> z3 with axioms for the atoms involved."""

    def __init__(self):
        self.vars = {}
        self.ax = []
        self.done = set()
        self.expmon = set()
        self.roots = {}      # atom -> denominators needed
        self.nested = False

    def q(self, x):
        f = Fraction(x)
        return z3.RealVal(f'{f.numerator}/{f.denominator}')

    def var(self, aid):
        v = self.vars.get(aid)
        if v is None:
            v = z3.Real(f'a{aid}')
            self.vars[aid] = v
            self.axioms(aid, v)
        return v

    def axioms(self, aid, v):
        a = ATOMS[aid]
        if a.kind == 'sym' and a.data == 'pi':
            self.ax += [v > z3.RealVal('314159/100000'), v < z3.RealVal('314160/100000')]
        elif a.kind == 'exp':
            self.ax.append(v > 0)
            if a.data == ():
                self.ax += [v > z3.RealVal('27182/10000'), v < z3.RealVal('27183/10000')]
            else:
                arg = self.poly(E.monoP(a.data))
                self.ax += [(v > 1) == (arg > 0), (v == 1) == (arg == 0), v >= 1 + arg]
        elif a.kind == 'log':
            if isinstance(a.data, P):
                x = self.poly(a.data)
                self.ax += [z3.Implies(x > 0, z3.And((v > 0) == (x > 1), (v == 0) == (x == 1), v <= x - 1))]
            else:
                import math
                f = Fraction(math.log(a.data)).limit_denominator(10 ** 6)
                self.ax += [v > self.q(f - Fraction(1, 10 ** 5)), v < self.q(f + Fraction(1, 10 ** 5))]
        elif a.kind == 'def':
            self.ax.append(v == self.poly(a.data) if isinstance(a.data, P) else v == self.q(a.data))
            if not isinstance(a.data, P):
                return
        elif a.kind in ('max', 'min'):
            xs = [self.poly(z) for z in a.data]
            self.ax += [(v >= x if a.kind == 'max' else v <= x) for x in xs]
            self.ax.append(z3.Or([v == x for x in xs]))
        elif a.kind == 'fn':
            f = a.data[0]
            if f in ('sin', 'cos', 'erf'):
                self.ax += [v >= -1, v <= 1]
        elif a.kind == 'unif':
            raise SymError('uniform draw in a parameter query')
        if a.pos:
            self.ax.append(v > 0)

    def powterm(self, aid, e):
        a = ATOMS[aid]
        v = self.var(aid)
        if isinstance(e, int):
            return v, e
        d = e.denominator
        key = (aid, d)
        r = self.roots.get(key)
        if r is None:
            r = z3.Real(f'a{aid}_r{d}')
            self.roots[key] = r
            p = r
            for _ in range(d - 1):
                p = p * r
            # roots are only formed of nonnegative quantities (positive when inverted)
            self.ax += [r >= 0, p == v]
        return r, e.numerator

    def mono(self, m):
        num, den = None, None
        exps = []
        for a, e in m:
            if ATOMS[a].kind == 'exp':
                exps.append((a, e))
            v, k = self.powterm(a, e)
            for _ in range(abs(k)):
                if k > 0:
                    num = v if num is None else num * v
                else:
                    den = v if den is None else den * v
        if len(exps) > 1 or (len(exps) == 1 and exps[0][1] != 1):
            self.exp_group(tuple(exps))
        return num, den

    def exp_group(self, exps):
        if exps in self.done:
            return
        self.done.add(exps)
        arg = 0
        num = den = None
        for a, e in exps:
            arg = E.add(arg, E.mul(e, E.monoP(ATOMS[a].data)))
            v, k = self.powterm(a, e)
            for _ in range(abs(k)):
                if k > 0:
                    num = v if num is None else num * v
                else:
                    den = v if den is None else den * v
        num = self.q(1) if num is None else num
        den = self.q(1) if den is None else den
        if not isinstance(arg, P):
            return
        A = self.poly(arg)
        self.ax += [(num > den) == (A > 0), (num == den) == (A == 0)]

    def poly(self, p):
        """z3 term for p; negative powers become divisions by a common denominator variable product (all nonzero)."""
        if not isinstance(p, P):
            return self.q(p)
        terms = []
        for m, c in p.t.items():
            n, d = self.mono(m)
            t = self.q(c)
            if n is not None:
                t = t * n if c != 1 else n
            if d is not None:
                t = t / d
            terms.append(t)
        if len(terms) == 1:
            return terms[0]
        return z3.Sum(terms)

    def cleared(self, p):
        """(p * D, D) with D a monomial making all exponents nonnegative."""
        low = {}
        for m in p.t:
            for a, e in m:
                if e < 0 and e < low.get(a, 0):
                    low[a] = e
        if not low:
            return p, 1
        f = tuple(sorted((a, -e) for a, e in low.items()))
        t = {}
        for m, c in p.t.items():
            d = dict(m)
            for a, e in f:
                v = E._fr(d.get(a, 0) + e)
                if v == 0:
                    d.pop(a, None)
                else:
                    d[a] = v
            t[tuple(sorted(d.items()))] = c      # def atoms are deliberately not expanded here
        return P(t), P({f: 1})

    def cond(self, c):
        if isinstance(c, bool):
            return z3.BoolVal(c)
        op = c[0]
        if op == 'and':
            return z3.And([self.cond(x) for x in c[1]])
        if op == 'or':
            return z3.Or([self.cond(x) for x in c[1]])
        if op == 'not':
            return z3.Not(self.cond(c[1]))
        if op == 'differ':
            return self.poly(c[1]) != self.poly(c[2])
        p = c[1]
        if not isinstance(p, P):
            if op == '>=': return z3.BoolVal(p >= 0)
            if op == '>': return z3.BoolVal(p > 0)
            return z3.BoolVal({'<': p < 0, '<=': p <= 0, '==': p == 0, '!=': p != 0}[op])
        p2, d = self.cleared(p)
        t = self.poly(p2)
        if isinstance(d, P):
            (dm, _), = d.t.items()
            allpos = all(ATOMS[a].pos for a, _ in dm)
            nz = []
            for a, e in dm:
                v, k = self.powterm(a, e)
                nz.append(v > 0 if ATOMS[a].pos else v != 0)
            if op in ('<', '<=', '>', '>=') and not allpos:
                n, _ = self.mono(tuple((a, e) for a, e in dm if not ATOMS[a].pos))
                t = t * n           # sign(p) = sign(p2 * d) for d != 0
            self.ax += nz
        z = self.q(0)
        r = {'<': t < z, '<=': t <= z, '==': t == z, '!=': t != z, '>': t > z, '>=': t >= z}[op]
        if not self.nested and op in ('<', '<=', '>', '>=') and loglinear(p):
            # exp is increasing: p op 0 iff exp(p) op 1
            self.nested = True
            try:
                q = E.sub(E.exp(p), 1)
                if isinstance(q, P):
                    self.ax.append(r == self.cond((op, q)))
            finally:
                self.nested = False
        return r


class Ctx:
    """assumptions: list of conditions.  pc: region conditions."""

    def __init__(self, assumptions=(), pc=(), timeout_ms=4000, record_obligations=False):
        self.assumptions = list(assumptions)
        self.pc = list(pc)
        self.timeout = timeout_ms
        self.cache = {}
        self.record = record_obligations
        self.obligations = {}
        self.pos_cache = {}
        self._box = None

    def __enter__(self):
        self._old = E.CUR.ctx
        E.CUR.ctx = self
        return self

    def __exit__(self, *a):
        E.CUR.ctx = self._old

    # -- raw query
    def relevant(self, aids):
        """assumptions connected to the query's atoms (cone of influence)."""
        seen = set()
        todo = list(aids)
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            todo += list(adeps(a) - seen)
        conds = [(c, closure(cond_atoms(c))) for c in self.assumptions + self.pc]
        out = []
        changed = True
        rest = conds
        while changed:
            changed = False
            nrest = []
            for c, s in rest:
                if s & seen or not s:
                    out.append(c)
                    seen |= s
                    changed = True
                else:
                    nrest.append((c, s))
            rest = nrest
        return out

    def check(self, conds, timeout=None, model=False, full=False):
        """satisfiability of assumptions & pc & conds. returns 'sat'/'unsat'/'unknown' (and model)."""
        tr = Tr()
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        aids = set()
        for c in conds:
            aids |= closure(cond_atoms(c))
        base = (self.assumptions + self.pc) if full else self.relevant(aids)
        for c in list(base) + list(conds):
            s.add(tr.cond(c))
        n = 0
        while n < len(tr.ax):       # axioms may trigger more axioms
            s.add(tr.ax[n])
            n += 1
        t0 = time.time()
        r = s.check()
        STATS.time += time.time() - t0
        STATS.queries += 1
        r = str(r)
        setattr(STATS, r, getattr(STATS, r) + 1)
        if model:
            return r, (self._model(s.model(), tr) if r == 'sat' else None)
        return r

    def _model(self, m, tr):
        out = {}
        for aid, v in tr.vars.items():
            if ATOMS[aid].kind in ('sym', 'fn'):
                x = m.eval(v, model_completion=True)
                if z3.is_algebraic_value(x):
                    x = x.approx(20)
                out[aid] = Fraction(x.numerator_as_long(), x.denominator_as_long())
        return out

    # -- signs
    def signs(self, x):
        """possible signs of x under the assumptions: subset of {-1,0,1} (over-approximate when unknown)."""
        if not isinstance(x, P):
            return frozenset([(x > 0) - (x < 0)])
        if E.evidently_pos(x):
            return frozenset([1])
        if E.evidently_pos(E.neg(x)):
            return frozenset([-1])
        r = self.cache.get(x)
        if r is None:
            y = E.simp(x)
            if not isinstance(y, P):
                r = frozenset([(y > 0) - (y < 0)])
            elif (v := self.vertex_sign(y)) is not None:
                r = frozenset([v])
            else:
                s = set()
                for op, sg in (('>', 1), ('<', -1), ('==', 0)):
                    if self.check([(op, y)]) != 'unsat':
                        s.add(sg)
                r = frozenset(s)
            self.cache[x] = r
        return r

    def boxes(self):
        """interval bounds stated directly by the assumptions."""
        if self._box is None or self._box[0] != len(self.assumptions):
            lo, hi = {}, {}
            for c in self.assumptions:
                if c[0] not in ('<', '<=', '>', '>=') or not isinstance(c[1], P):
                    continue
                t = c[1].t
                at = [m for m in t if m]
                if len(at) != 1 or len(at[0]) != 1 or at[0][0][1] != 1 or ATOMS[at[0][0][0]].kind != 'sym':
                    continue
                a = at[0][0][0]
                k = t[at[0]]
                v = -Fraction(t.get((), 0)) / k
                up = (c[0][0] == '<') == (k > 0)
                if up:
                    hi[a] = min(hi.get(a, v), v)
                else:
                    lo[a] = max(lo.get(a, v), v)
            bx = {}
            for a in hi:
                l = lo.get(a, 0 if ATOMS[a].pos else None)
                if l is not None and l < hi[a]:
                    bx[a] = (Fraction(l), Fraction(hi[a]))
            self._box = (len(self.assumptions), bx)
        return self._box[1]

    def vertex_sign(self, x, depth=0):
        """sufficient test: a polynomial affine in each box variable, with coefficients in positive atoms, is a convex
        combination of its vertex values, so it is positive inside the box if these are nonnegative and not all zero."""
        bx = self.boxes()
        if not bx:
            return None
        vs = set()
        for m in x.t:
            for a, e in m:
                if a in bx:
                    if e != 1:
                        return None
                    vs.add(a)
                elif not self._pos_atom(a, depth):
                    return None
        if len(vs) > 10:
            return None
        vs = sorted(vs)
        tab = [(tuple((a, e) for a, e in m if a not in bx), [k for k, a in enumerate(vs) if any(a == b for b, _ in m)], c)
               for m, c in x.t.items()]
        sg = 0
        for corner in itertools.product((0, 1), repeat=len(vs)):
            acc = {}
            val = [bx[a][i] for a, i in zip(vs, corner)]
            for m, ks, c in tab:
                for k in ks:
                    c = c * val[k]
                    if c == 0:
                        break
                if c != 0:
                    acc[m] = acc.get(m, 0) + c
            for c in acc.values():
                if c == 0:
                    continue
                z = 1 if c > 0 else -1
                if sg == 0:
                    sg = z
                elif sg != z:
                    return None
        return sg or None

    def _pos_atom(self, a, depth):
        at = ATOMS[a]
        if at.pos or at.kind == 'unif':
            return True
        if depth > 6:
            return False
        r = self.pos_cache.get(a)
        if r is None and at.kind == 'def':
            d = at.data if isinstance(at.data, P) else None
            if d is not None and self.vertex_sign(d, depth + 1) == 1:
                r = self.pos_cache[a] = True
        return bool(r)

    def sign(self, x):
        s = self.signs(x)
        return next(iter(s)) if len(s) == 1 else None

    def known_pos(self, x):
        if not isinstance(x, P):
            return x > 0
        return E.evidently_pos(x)

    def atom_pos(self, aid):
        a = ATOMS[aid]
        if a.pos:
            return True
        if a.kind == 'unif':
            return True
        r = self.pos_cache.get(aid)
        if r is None:
            r = self.signs(E.atomP(a)) == frozenset([1])
            self.pos_cache[aid] = r
        return r

    def decide(self, cond):
        """True / False / None for an atomic condition."""
        op, p = cond
        if not isinstance(p, P):
            return {'<': p < 0, '<=': p <= 0, '==': p == 0, '!=': p != 0, '>': p > 0, '>=': p >= 0}[op]
        s = self.signs(p)
        if not s:
            return True     # contradictory region
        ok = {'<': {-1}, '<=': {-1, 0}, '==': {0}, '!=': {-1, 1}, '>': {1}, '>=': {0, 1}}[op]
        if s <= ok:
            return True
        if not (s & ok):
            return False
        return None

    def branch(self, cond):
        r = self.decide(cond)
        if r is None:
            raise Split(cond)
        return r

    # -- definedness obligations (collected, discharged by the harness on demand)
    def oblige_nonzero(self, x):
        if self.record:
            self.obligations[('!=', x)] = True

    def oblige_pos(self, x):
        if self.record:
            self.obligations[('>', x)] = True

    def oblige_nonneg(self, x):
        if self.record:
            self.obligations[('>=', x)] = True


_AT = {}


def atoms_of(data):
    if isinstance(data, P):
        return data.atoms()
    s = set()
    if isinstance(data, tuple):
        for d in data:
            if isinstance(d, P):
                s |= d.atoms()
            elif isinstance(d, tuple):
                if len(d) == 2 and isinstance(d[0], int) and isinstance(d[1], (int, Fraction)):
                    s.add(d[0])
                else:
                    s |= atoms_of(d)
    return s


def closure(aids):
    out = set()
    todo = list(aids)
    while todo:
        a = todo.pop()
        if a in out:
            continue
        out.add(a)
        todo += adeps(a)
    return out


def adeps(a):
    k = _AT.get(a)
    if k is None:
        at = ATOMS[a]
        k = _AT[a] = set() if at.kind in ('sym', 'unif') else atoms_of(at.data)
    return k


def cond_atoms(c):
    if isinstance(c, bool):
        return set()
    if c[0] in ('and', 'or'):
        s = set()
        for x in c[1]:
            s |= cond_atoms(x)
        return s
    if c[0] == 'not':
        return cond_atoms(c[1])
    return c[1].atoms() if isinstance(c[1], P) else set()


def prove_zero(ctx, p, timeout=20000):
    """Solver verdict on 'p == 0 for all parameter values in the region'. Returns (ok, model)."""
    STATS.vcs += 1
    if isinstance(p, P) and len(p.t) <= 1500:
        # the raw rational-function query: denominators are solver variables with their definitions as axioms
        r, m = ctx.check([('!=', p)], timeout=min(timeout, 6000), model=True)
        if r == 'unsat':
            return True, None
        if r == 'sat':
            if any(a.kind == 'exp' for a in map(ATOMS.__getitem__, p.atoms())):
                q = E.merge_exps(E.merge_exps(E.clear_den(p)))      # equal arguments in different forms
                if not isinstance(q, P):
                    return q == 0, m
                r2, m2 = ctx.check([('!=', q)], timeout=timeout, model=True)
                if r2 == 'unsat':
                    return True, None
                m = m2 or m
            return False, m
    return prove(ctx, [('!=', p)], timeout)


def prove_eq(ctx, u, v, timeout=20000):
    """Solver verdict on 'u == v for all parameter values in the region'."""
    if any(isinstance(x, float) and E.isnonfinite(x) for x in (u, v)):
        STATS.vcs += 1
        return u == v, None
    u = u if isinstance(u, P) else E.num(u)
    v = v if isinstance(v, P) else E.num(v)
    d = E.sub(u, v)
    if isinstance(d, P):
        return prove_zero(ctx, d, timeout)
    STATS.vcs += 1
    if d != 0 or d != d:
        return False, None
    # both sides have one normal form: the solver confirms the equality of the two terms as they stand
    r, m = ctx.check([('differ', u, v)], timeout=2000, model=True)
    return True, None


def prove(ctx, negated, timeout=20000):
    """negated: list of conditions whose conjunction (with the region) must be unsatisfiable."""
    conds = []
    for c in negated:
        conds.append(_clear(c))
    r, m = ctx.check(conds, timeout=timeout, model=True)
    if r == 'unknown':
        r2 = cvc5_check(ctx, conds, timeout)
        if r2 == 'unsat':
            return True, None
        raise Inconclusive('solver answered unknown on a verification condition: ' + E.show(negated[0][1], 6))
    if r == 'unsat':
        return True, None
    return False, m


def _clear(c):
    if isinstance(c, bool) or c[0] in ('and', 'or', 'not'):
        return c
    if c[0] in ('==', '!=') and isinstance(c[1], P):
        return (c[0], E.clear_den(E.simp(c[1])))
    return c


def cvc5_check(ctx, conds, timeout):
    try:
        import cvc5
        tr = Tr()
        s = z3.Solver()
        aids = set()
        for c in conds:
            aids |= closure(cond_atoms(c))
        for c in ctx.relevant(aids) + list(conds):
            s.add(tr.cond(c))
        n = 0
        while n < len(tr.ax):
            s.add(tr.ax[n])
            n += 1
        text = '(set-logic QF_NRA)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        slv = cvc5.Solver(tm) if tm else cvc5.Solver()
        slv.setOption('tlimit-per', str(timeout))
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'q')
        sm = p.getSymbolManager()
        res = 'unknown'
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            o = str(out).strip()
            if o in ('sat', 'unsat', 'unknown'):
                res = o
        STATS.cvc5_queries += 1
        return res
    except Exception:
        return 'unknown'
