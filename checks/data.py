"""Data-set checks: index and pixel properties decided by z3 over symbolic random integers and pixel values."""
import numpy as np
from symjax.harness import *
from symjax import zexec as Zx
from symjax.smt import z3
from . import data_cases as D


def jaxargs(inputs):
    return {n: jax.ShapeDtypeStruct(s, jnp.float64) for n, (k, s) in inputs.items()}


def trace(fn, inputs):
    names = list(inputs)
    with rng.active():
        closed, tree = jax.make_jaxpr(lambda k, *a: fn(k, **dict(zip(names, a))), return_shape=True)(
            jax.ShapeDtypeStruct((2,), jnp.uint32), *[jaxargs(inputs)[n] for n in names])
    return closed, jax.tree_util.tree_structure(tree), count_eqns(closed.jaxpr)


def zjob(pid, idx):
    site, fn, inputs, prop, _ = D.CASES[pid][idx]

    def job(cc):
        Zx.BV[0] = 14 if pid == 'N01' else 0
        closed, td, n = trace(fn, inputs)
        cc.encoded(site, n)
        ex = Zx.ZExec()
        ins = {k: Zx.symreal(k, s) for k, (_, s) in inputs.items()}
        outs = ex.run(closed, [Zx.key()] + list(ins.values()))
        out = jax.tree_util.tree_unflatten(td, outs)
        cc.regions += 1
        r, _ = Zx.solve(ex.asm, True)
        cc.vacuous += r == 'sat'
        if r != 'sat':
            raise SymError('the contracts of the random draws are not satisfiable together')
        conds = [(w, c) for w, c in ex.oblig] + list(prop(out, ins))
        data = lambda lab, m: {'pid': pid, 'idx': idx, 'label': lab, 'inputs': {
            k: values(m, a) for k, a in ins.items()}, 'draws': draws(m, ex)}
        goals = []
        vals = [x for a in ins.values() for x in a.reshape(-1)]
        for lab, c in conds:
            cc.vcs += 1
            if lab.startswith('can: '):
                # some draw makes it true (for generic inputs: all entries different)
                r, m = Zx.solve(ex.asm + ([z3.Distinct(vals)] if len(vals) > 1 else []), c)
                if r == 'unknown':
                    raise Inconclusive(f'{lab}: solver answered unknown')
                if r == 'unsat':
                    cc.candidate(site, f'{lab[5:]}: impossible', 'data', data(lab, None))
                    return
                continue
            if not Zx.isz(c):
                if not c:
                    cc.candidate(site, f'{lab}: fails', 'data', data(lab, None))
                    return
                continue
            goals.append((lab, c))
        if goals:
            r, m = Zx.solve(ex.asm, z3.Not(z3.And([c for _, c in goals])), timeout=120000)
            if r == 'unknown':
                for lab, c in goals:
                    r, m = Zx.solve(ex.asm, z3.Not(c), timeout=60000)
                    if r == 'unknown':
                        raise Inconclusive(f'{lab}: solver answered unknown')
                    if r == 'sat':
                        break
            if r == 'sat':
                lab = next((l for l, c in goals if z3.is_false(m.eval(c, model_completion=True))), goals[0][0])
                cc.candidate(site, f'{lab}: fails', 'data', data(lab, m))
                return
        cc.sample(f'{site}: {len(conds)} conditions, {len(ex.vars)} symbolic draws, '
                  f'{sum(a.size for a in ins.values())} symbolic values')
    return site, job, 'data', {'pid': pid, 'idx': idx, 'label': None, 'inputs': {}, 'draws': []}


def values(m, a):
    o = np.zeros(a.shape)
    for i in np.ndindex(*a.shape):
        v = m.eval(a[i], model_completion=True) if m is not None else None
        o[i] = float(v.as_fraction()) if v is not None and z3.is_rational_value(v) else 0.1 + 0.01 * sum(i) + .001 * len(i)
    return o.tolist()


def draws(m, ex):
    if m is None:
        return []
    out = []
    for kind, name, v in ex.vars:
        x = m.eval(v, model_completion=True)
        out.append([name, int(x.as_long()) if z3.is_int_value(x) or z3.is_bv_value(x) else str(x)])
    return out


def run(c, explanation):
    jobs = [zjob(c.pid, i) for i, t in enumerate(D.CASES.get(c.pid, [])) if not (c.quick and t[4])]
    c.stub('jax.random.randint / choice / permutation: solver integers constrained to their documented ranges '
           '(distinct for draws without replacement); equal keys give equal draws')
    c.bound('image sizes, batch sizes and data-set sizes are those named in each site; every pixel value and every random '
            'integer is symbolic')
    c.jobs(jobs, procs=6, timeout=420 if c.quick else 840)
    return c.finish(explanation=explanation)


def n01(c): return run(c, 'the real mask generators, executed over symbolic random integers (sorting and set difference '
                          'included), split the pixels into the stated parts')
def n02(c): return run(c, 'unpack and concat are mutually inverse for every image and every mask the generator can draw')
def n03(c): return run(c, 'sampled and enumerated pairs: the observation belongs to the returned image')
def n04(c): return run(c, 'one epoch visits every item of the truncated data set exactly once, for every permutation')
def n06(c): return run(c, 'corruption operators and intensity normalisation over symbolic images')
def n09(c): return run(c, 'pixel shuffle is a block-wise bijection')
