"""N13: the data-set loaders, executed lazily over files of their real size."""
import numpy as np
from symjax.harness import *
from symjax import zexec as Zx, lazy as L
from symjax.smt import z3
from . import loaders_cases as C


def job(name):
    site, cls, split, files, kw = C.CASES[name]

    def run(cc):
        with C.patched_load(None) as hook:
            def fn(k, *data):
                hook[0] = dict(zip(files, data))
                d = C.build(cls, k, split, kw)
                assert isinstance(d.n, int), 'n is not a number'
                meta.update(n=d.n, image_shape=tuple(d.image_shape), task=d.task)
                return d.xs
            meta = {}
            with rng.active():
                closed, tree = jax.make_jaxpr(fn, return_shape=True)(
                    jax.ShapeDtypeStruct((2,), jnp.uint32), *[jax.ShapeDtypeStruct(s, jnp.float32) for s in files.values()])
        cc.encoded(site, count_eqns(closed.jaxpr))
        want_file, N, lo, n, img = C.expect(cls, split, kw.get('resolution') or (64 if 'Celeb' in cls else None))
        shp = files[want_file]
        data = lambda lab: {'name': name, 'label': lab}
        bad = lambda lab: cc.candidate(site, lab, 'loader', data(lab))

        def load(entry):
            ex = L.Lazy()
            arrs = [L.Arr(s, lambda ix, f=f: entry(f, [Zx.num(i) for i in ix])) for f, s in files.items()]
            xs, = ex.run(closed, [L.key()] + arrs)
            return ex, xs
        fs = {f: z3.Function('file_' + f, *([z3.IntSort()] * len(s)), z3.RealSort()) for f, s in files.items()}
        other = z3.Int('other_file')
        ex, xs = load(lambda f, ix: fs[f](*ix))
        exr, rows = load(lambda f, ix: ix[0] if f == want_file else other)
        cc.regions += 1
        cc.vacuous += 1
        cc.vcs += 3
        if meta['n'] != n or xs.shape != (n, *img):
            return bad(f'{xs.shape[0]} items of shape {xs.shape[1:]} announced as {meta["n"]}, expected {n} of {img}')
        if meta['image_shape'] != img:
            return bad('image_shape is not the shape of the items')
        if not any(p == ('k',) and m == N and k == N for p, m, k in ex.nperm):
            return bad('the rows are not shuffled by a permutation of the whole file drawn from the given key')
        ix = tuple(z3.Int(f'i{d}') for d in range(1 + len(img)))
        inr = [z3.And(v >= 0, v < s) for v, s in zip(ix, (n, *img))]
        # the row an item is taken from, read off a file whose entries are their row number
        row = rows.get((ix[0], 0, 0, 0))
        k2 = z3.Int('k2')
        row2 = rows.get((k2, 0, 0, 0))
        asm = exr.asm
        if not z3.is_int(Zx.num(row)):
            row, row2 = z3.ToInt(row), z3.ToInt(row2)
        got = xs.get(ix)
        pix = ix[1:] if len(shp) == 4 else (L.linear(ix[1:], img),)
        want = fs[want_file](row, *[Zx.num(p) for p in pix])

        def vc(lab, extra, goal):
            cc.vcs += 1
            r, m = Zx.solve(asm + ex.asm + extra, z3.Not(goal), timeout=120000)
            if r == 'unknown':
                raise Inconclusive(lab)
            if r == 'sat':
                bad(lab)
            return r == 'unsat'
        if vc('an item is not an image of the file', inr, z3.And(row >= 0, row < N)) and \
           vc('an entry of the loaded data is not the entry of the file at the same pixel of the same image', inr, got == want):
            vc('two items are the same image of the file', inr[:1] + [k2 >= 0, k2 < n, k2 != ix[0]], row != row2)
        cc.sample(f'{site}: {n} x {img} entries')
    return site, run, 'loader', {'name': name, 'label': None}


def split_job(cls):
    """training and test sets drawn with one key partition the file"""
    site = f'{cls}/train and test'

    def run(cc):
        names = [n for n, c in C.CASES.items() if c[1] == cls]
        files = C.CASES[names[0]][3]
        got = {}
        ex = L.Lazy()
        fl, shp = next(iter(files.items()))
        for test in (False, True):
            kw = next(C.CASES[n][4] for n in names if C.CASES[n][2] == test)
            with C.patched_load(None) as hook:
                def fn(k, data):
                    hook[0] = {fl: data}
                    return C.build(cls, k, test, kw).xs
                with rng.active():
                    closed = jax.make_jaxpr(fn)(jax.ShapeDtypeStruct((2,), jnp.uint32), jax.ShapeDtypeStruct(shp, jnp.float32))
            # a file whose entries are their row number
            xs, = ex.run(closed, [L.key(), L.Arr(shp, lambda ix: Zx.num(ix[0]))])
            got[test] = xs
        cc.encoded(site, 1)
        cc.regions += 1
        a, b = z3.Int('a'), z3.Int('b')
        N = shp[0]
        x = got[False].get((a, 0, 0, 0))
        y = got[True].get((b, 0, 0, 0))
        cc.vcs += 2
        bad = lambda lab: cc.candidate(site, lab, 'loader', {'name': names[0], 'label': lab, 'split': cls})
        if got[False].shape[0] + got[True].shape[0] != N:
            return bad('the training and test sets do not have the size of the file together')
        r, _ = Zx.solve(ex.asm + [a >= 0, a < got[False].shape[0], b >= 0, b < got[True].shape[0]], x == y, timeout=120000)
        if r == 'unknown':
            raise Inconclusive('disjointness')
        if r == 'sat':
            bad('an image is in the training set and in the test set of the same key')
        cc.sample(f'{site}: disjoint, sizes add to {N}')
    return site, run, 'loader', {'name': next(n for n, c in C.CASES.items() if c[1] == cls), 'label': None, 'split': cls}


def n13(c):
    jobs = [job(n) for n in C.CASES] + [split_job(cls) for cls in C.SPLIT]
    c.stub('jax.random.permutation: an injective map of the row numbers (uninterpreted, with its inverse); jnp.load: the '
           'arrays of a file of the documented shape with arbitrary entries')
    c.bound('files of the sizes the loaders are written for (60000/10000 MNIST, 50000/10000 CIFAR-10, 30000 CelebA-HQ at '
            'resolutions 8 and 64): all rows, pixels and entries symbolic')
    c.assume('conversion between floating point types of at least 32 bits keeps values')
    c.jobs(jobs, procs=6, timeout=420)
    return c.finish(explanation='entry (k, i, j, c) of the loaded data as a solver term over symbolic k, i, j, c, equal to the entry of '
                                'the file at row perm(k) and pixel (i, j, c); distinct items distinct rows; splits disjoint')
