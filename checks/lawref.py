"""Exact reference laws by enumeration; generic over floats, Fractions and symbolic values."""
import itertools
from fractions import Fraction


def twisted_law(K, N, md):
    """the algorithm, enumerated: dict (xs) -> [prob, [E[W_i 1{xs}]]] exact."""
    b = lambda p, x: p if x == 1 else 1 - p
    div = lambda a, z: (Fraction(a) if isinstance(a, int) else a) / z
    states = {}
    for x in itertools.product(range(2), repeat=N):
        w = 1
        for u in x:
            w = w * b(md['p1'], u)
        W = [md['psi'][0][u] for u in x]
        states[x, tuple(W)] = w
    for k in range(1, K + 1):
        nxt = {}
        for (x, W), w in states.items():
            tot = 0
            for z in W:
                tot = tot + z
            for A in itertools.product(range(N), repeat=N):
                wa = w
                for a in A:
                    wa = wa * div(W[a], tot)
                xp = [x[a] for a in A]
                for y in itertools.product(range(2), repeat=N):
                    wy = wa
                    nW = []
                    for i in range(N):
                        q = b(md['q'][k][xp[i]], y[i])
                        wy = wy * q
                        nW.append(div(div(b(md['p'][k][xp[i]], y[i]) * md['psi'][k][y[i]], q),
                                      md['psi'][k - 1][xp[i]]))
                    kk = (y, tuple(nW))
                    nxt[kk] = nxt[kk] + wy if kk in nxt else wy
        states = nxt
    out = {}
    for (x, W), w in states.items():
        tot = 0
        for z in W:
            tot = tot + z
        r = out.setdefault(x, [0] + [0] * N)
        r[0] = r[0] + w
        for i in range(N):
            r[1 + i] = r[1 + i] + w * div(W[i], tot)
    return out
