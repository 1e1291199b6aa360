"""Symbolic instances of the finite models of fsm.py."""
import itertools
from symjax.harness import *
from . import fsm
from .fsm import S, callbacks, vs_ts, Model


def ap(p):
    return arr(p)


class Tables(Model):
    def __init__(self, K, g0=True, lik=True):
        self.syms = []
        self.assume = []
        s = self._sym
        super().__init__(K, s('p0', True), [s('g0_0'), 1] if g0 else [1, 1],
                         [[s(f'm{k}_{u}', True) for u in range(S)] for k in range(K)],
                         [[s(f'g{k + 1}_0'), 1] if lik else [1, 1] for k in range(K)])

    def _sym(self, n, prob=False):
        x = E.sym(n, True)
        self.syms.append(x)
        if prob:
            self.assume.append(('<', E.sub(x, 1)))
        return x

    def arrays(self):
        return {k: arr(v) for k, v in self.tables().items()}

    def worst(self, ctx, d, m):
        probs = [self.p1] + [x for r in self.tr for x in r]
        tot = 0
        for t in itertools.product(range(2), repeat=self.K + 1):
            tot = E.add(tot, self.target(t))
        return self.numeric(worst(ctx, d, m, self.syms, tot, prob=probs))

    def numeric(self, model):
        """float parameters of a solver model, in the layout the replay expects."""
        def val(x):
            if not isinstance(x, P):
                return float(x)
            return float((model or {}).get(next(iter(x.atoms())), 0.37))
        return {'K': self.K, 'p1': val(self.p1), 'g0': [val(x) for x in self.g0],
                'tr': [[val(x) for x in r] for r in self.tr], 'li': [[val(x) for x in r] for r in self.li]}


def holds(c, env):
    """numeric truth of a solver condition."""
    if isinstance(c, bool):
        return c
    if c[0] == 'and':
        return all(holds(x, env) for x in c[1])
    if c[0] == 'or':
        return any(holds(x, env) for x in c[1])
    if c[0] == 'not':
        return not holds(c[1], env)
    v = E.subst_num(c[1], env)
    return {'<': v < 0, '<=': v <= 0, '==': abs(v) < 1e-9, '!=': v != 0, '>': v > 0, '>=': v >= 0}[c[0]]


def worst(ctx, d, m, syms, norm=1, budget=6.0, prob=()):
    """A refuted identity d == 0: among points of the region (starting from the solver's model m) pick one where |d|/norm
    is large, so that the replay on the real code has power.  Returns {atom id: value}."""
    import random
    rnd = random.Random(7)
    ids = [next(iter(s.atoms())) for s in syms if isinstance(s, P)]
    pid = {next(iter(s.atoms())) for s in prob if isinstance(s, P)}
    best, bv = dict(m or {}), -1.0
    t0 = time.time()

    def score(env):
        try:
            if not all(holds(c, env) for c in list(ctx.assumptions) + list(ctx.pc)):
                return None
            return abs(E.subst_num(d, env)) / abs(E.subst_num(norm, env) if isinstance(norm, P) else norm)
        except (ZeroDivisionError, OverflowError, ValueError, SymError, KeyError):
            return None
    if not isinstance(d, P):
        return best
    cur = None
    n = 0
    while time.time() - t0 < budget and n < 3000:
        n += 1
        if cur is None or n < 300 or n % 4 == 0:
            env = {a: (rnd.uniform(.04, .96) if a in pid else 2.0 ** rnd.uniform(-3, 3)) for a in ids}
        else:
            env = dict(cur)
            a = rnd.choice(ids)
            env[a] = rnd.uniform(.04, .96) if a in pid else 2.0 ** rnd.uniform(-3, 3)
        v = score(env)
        if v is not None and v > bv:
            bv, best, cur = v, env, env
    return best
