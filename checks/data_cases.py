"""Data-set and layout cases: traced functions of the real code and properties written once over solver terms or
concrete values (zexec operators accept both)."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from symjax import zexec as z

CASES = {}       # pid -> [(site, fn(key, **arrays) -> dict, inputs, prop(out, ins) -> [(label, condition)], tier)]


def case(pid, site, inputs, fn, prop, thorough=False):
    CASES.setdefault(pid, []).append((site, fn, inputs, prop, thorough))


def flat(a):
    return list(np.asarray(a, dtype=object).reshape(-1))


def alleq(a, b):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if a.shape != b.shape:
        return False
    return z.AND(*[z.EQ(x, y) for x, y in zip(flat(a), flat(b))])


def inrange(v, n):
    return z.AND(z.GE(v, 0), z.LT(v, n))


def once(p, idx):
    """p occurs exactly once in idx"""
    return z.EQ(z.zsum([z.ite(z.EQ(v, p), 1, 0) for v in idx]), 1)


def pick(vals, i):
    """vals[i] for a solver index"""
    acc = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        acc = z.ite(z.EQ(i, k), vals[k], acc)
    return acc


def partition(out, npix):
    u, o = flat(out['unobs']), flat(out['obs'])
    c = [('mask sizes', len(u) + len(o) == npix)]
    c += [(f'index {k} is inside the image', inrange(v, npix)) for k, v in enumerate(u + o)]
    c += [(f'pixel {p} belongs to exactly one part', once(p, u + o)) for p in range(npix)]
    return c


def mk(task, shape, rnd=True, **attrs):
    from fbs.data import ImageRestore
    d = ImageRestore(task, shape, sr_random=rnd)
    for k, v in attrs.items():
        setattr(d, k, v)
    return d


# ------------------------------------------------------------------ N01 masks
def n01():
    for (w, h), r, rnd, th in [((4, 4), 2, True, False), ((4, 6), 2, True, False), ((6, 4), 2, True, True),
                               ((3, 6), 3, True, False), ((6, 6), 3, True, True), ((4, 4), 2, False, False),
                               ((6, 9), 3, False, False), ((8, 4), 4, True, True), ((8, 8), 4, False, False)]:
        def f(key, w=w, h=h, r=r, rnd=rnd):
            d = mk(f'supr-{r}', (w, h, 2), rnd)
            m = d.gen_mask(key)
            return {'unobs': m.unobs_inds_ravelled, 'obs': m.obs_inds_ravelled, 'rate': jnp.asarray(m.rate),
                    'shape': jnp.asarray(d.unobs_shape)}

        def prop(out, ins, w=w, h=h, r=r, rnd=rnd):
            c = partition(out, w * h)
            o = flat(out['obs'])
            c.append(('number of unobserved pixels', flat(out['shape']) == [len(flat(out['unobs'])), 2]
                      and len(o) * r * r == w * h))
            for bi, bj in itertools.product(range(0, w, r), range(0, h, r)):
                blk = [(bi + i) * h + bj + j for i in range(r) for j in range(r)]
                c.append((f'block ({bi},{bj}) has exactly one observed pixel',
                          z.EQ(z.zsum([z.ite(z.EQ(v, p), 1, 0) for v in o for p in blk]), 1)))
                if rnd:
                    c += [(f'can: pixel {p} is observed in some draw', z.OR(*[z.EQ(v, p) for v in o])) for p in blk]
                else:
                    c.append((f'block ({bi},{bj}) is observed in the middle',
                              once((bi + r // 2) * h + bj + r // 2, o)))
            return c
        case('N01', f'_gen_supr_mask/{w}x{h}/rate {r}/{"random" if rnd else "centred"}', {}, f, prop, th)
    for (w, h), s, th in [((4, 4), 2, False), ((5, 4), 2, False), ((4, 5), 3, False), ((4, 4), 3, False),
                          ((4, 4), 4, False), ((3, 6), 2, False), ((6, 3), 1, False), ((6, 6), 2, True), ((6, 5), 3, True)]:
        def f(key, w=w, h=h, s=s):
            d = mk(f'inpaint-{s}', (w, h, 3))
            m = d.gen_mask(key)
            return {'unobs': m.unobs_inds_ravelled, 'obs': m.obs_inds_ravelled,
                    'size': jnp.asarray([m.width, m.height]), 'shape': jnp.asarray(d.unobs_shape)}

        def prop(out, ins, w=w, h=h, s=s):
            u = flat(out['unobs'])
            c = partition(out, w * h)
            c.append(('number of unobserved pixels', flat(out['shape']) == [len(u), 3] and len(u) == s * s
                      and flat(out['size']) == [s, s]))
            corners = [a * h + b for a in range(w - s + 1) for b in range(h - s + 1)]
            c.append(('the missing part is one square inside the image',
                      z.OR(*[z.AND(*[once(q + i * h + j, u) for i in range(s) for j in range(s)]) for q in corners])))
            for k in range(max(1, min(w, h) - s)):
                c.append((f'can: the square is at shift {k}', z.AND(
                    *[z.OR(*[z.EQ(v, (k + i) * h + k + j) for v in u]) for i in range(s) for j in range(s)])))
            return c
        case('N01', f'_gen_inpaint_mask/{w}x{h}/square {s}', {}, f, prop, th)


# ------------------------------------------------------------------ N02 unpack / concat
def n02():
    for task, shape, rnd, batch, th in [('supr-2', (4, 4, 2), True, (), False), ('supr-2', (4, 2, 1), True, (2,), False),
                                        ('supr-2', (2, 4, 3), True, (), False),
                                        ('inpaint-2', (4, 4, 2), True, (), False), ('inpaint-2', (4, 3, 1), True, (2,), False),
                                        ('inpaint-2', (3, 4, 1), True, (), False),
                                        ('supr-3', (3, 6, 1), False, (2, 1), False), ('supr-2', (4, 4, 1), True, (2, 2), True),
                                        ('inpaint-3', (5, 4, 1), True, (2,), True)]:
        q = (lambda d: d.unobs_shape[0])(mkshape(task, shape))
        n = shape[0] * shape[1]

        def f(key, img, x, y, task=task, shape=shape, rnd=rnd):
            d = mk(task, shape, rnd)
            m = d.gen_mask(key)
            a, b = d.unpack(img, m)
            c = d.concat(x, y, m)
            x2, y2 = d.unpack(c, m)
            return {'x': a, 'y': b, 'back': d.concat(a, b, m), 'x2': x2, 'y2': y2, 'c': c,
                    'unobs': m.unobs_inds_ravelled, 'obs': m.obs_inds_ravelled}

        def prop(out, ins, shape=shape, batch=batch, q=q, n=n):
            c = [('unobserved part has the declared shape', np.shape(out['x']) == (*batch, q, shape[2])),
                 ('concat restores what unpack split', alleq(out['back'], ins['img'])),
                 ('unpack restores the unobserved part given to concat', alleq(out['x2'], ins['x'])),
                 ('unpack restores the observed part given to concat', alleq(out['y2'], ins['y']))]
            for nm, ix in (('x', 'unobs'), ('y', 'obs')):
                a = np.asarray(out[nm], dtype=object)
                im = np.asarray(ins['img'], dtype=object).reshape(*batch, n, shape[2])
                ii = flat(out[ix])
                if a.shape != (*batch, len(ii), shape[2]):
                    c.append((f'{nm} has one row per mask index', False))
                    continue
                ok = []
                for b in np.ndindex(*batch):
                    for k, i in enumerate(ii):
                        for ch in range(shape[2]):
                            ok.append(z.EQ(a[b + (k, ch)], pick([im[b + (p, ch)] for p in range(n)], i)))
                c.append((f'{nm} holds the pixels of the mask', z.AND(*ok)))
            return c
        case('N02', f'unpack+concat/{task}/{shape}/batch {batch}',
             {'img': ('real', (*batch, *shape)), 'x': ('real', (*batch, q, shape[2])),
              'y': ('real', (*batch, n - q, shape[2]))}, f, prop, th)
    for batch, expand in (((), False), ((2,), False)):
        def f(key, x, y):
            from fbs.data.images import Image
            d = Image.__new__(Image)
            d.image_shape = (2, 3, 2)
            xy = Image.concat(x, y)
            a, b = d.unpack(xy)
            return {'a': a, 'b': b}
        case('N02', f'Image.concat+unpack/batch {batch}', {'x': ('real', (*batch, 2, 3, 2)), 'y': ('real', (*batch, 2, 3, 2))},
             f, lambda out, ins: [('clean image restored', alleq(out['a'], ins['x'])),
                                  ('corrupted image restored', alleq(out['b'], ins['y']))])


def mkshape(task, shape):
    import types
    s = int(task.split('-')[-1])
    w, h, c = shape
    return types.SimpleNamespace(unobs_shape=(s * s, c) if 'inpaint' in task else (w * h * (s * s - 1) // (s * s), c))


# ------------------------------------------------------------------ N03 sampling pairs
def rows_of(x, xs):
    return z.OR(*[alleq(x, np.asarray(xs, dtype=object)[i]) for i in range(len(xs))])


def n03():
    for task, shape, rnd in [('supr-2', (2, 4, 2), True), ('supr-2', (4, 2, 1), False), ('inpaint-2', (4, 3, 1), True)]:
        def f(key, xs, task=task, shape=shape, rnd=rnd):
            d = mk(task, shape, rnd, xs=xs, n=xs.shape[0])
            x, y, m = d.sampler(key)
            return {'x': x, 'y': y, 'unobs': m.unobs_inds_ravelled, 'obs': m.obs_inds_ravelled}

        def prop(out, ins, shape=shape):
            n = shape[0] * shape[1]
            ii = flat(out['obs'])
            x = np.asarray(out['x'], dtype=object)
            y = np.asarray(out['y'], dtype=object)
            c = [('the image is one of the data set', x.shape == shape and rows_of(x, ins['xs']))]
            c += [(f'can: image {i} is drawn', alleq(x, np.asarray(ins['xs'], dtype=object)[i])) for i in range(3)]
            if y.shape != (len(ii), shape[2]):
                return c + [('observation shape', False)]
            xf = x.reshape(n, shape[2])
            c.append(('the observation is the observed part of this image', z.AND(
                *[z.EQ(y[k, ch], pick(list(xf[:, ch]), i)) for k, i in enumerate(ii) for ch in range(shape[2])])))
            return c + partition(out, n)
        case('N03', f'ImageRestore.sampler/{task}/{shape}', {'xs': ('real', (3, *shape))}, f, prop)

    def image(task, shape, xs):
        from fbs.data.images import Image
        d = Image.__new__(Image)
        d.image_shape, d.task, d.xs, d.n = shape, task, xs, xs.shape[0]
        return d

    def f(key, xs):
        d = image('inpaint-2', (5, 5, 1), xs)
        x, y = d.sampler(key)
        return {'x': x, 'y': y}

    def prop(out, ins):
        xs = np.asarray(ins['xs'], dtype=object)
        return [(f'can: image {i} is drawn', alleq(out['x'], xs[i])) for i in range(2)] + [
                ('the image is one of the data set', rows_of(out['x'], ins['xs'])),
                ('the corrupted image is this image with a blank square', painted(out['x'], out['y'], 2))]
    case('N03', 'Image.sampler/inpaint-2', {'xs': ('real', (2, 5, 5, 1))}, f, prop)

    def f(key, xs, task='inpaint-2'):
        d = image('inpaint-2', (5, 5, 1), xs)
        k1, k2 = jax.random.split(key)
        d.init_enumeration(k1, 2)
        inds = d.perm_inds[1]
        x, y = d.enumerate_subset(1, key=k2)
        # an explicit permutation goes before the stored one
        x3, y3 = d.enumerate_subset(1, perm_inds=d.perm_inds[::-1], key=k2)
        return {'x': x, 'y': y, 'inds': inds, 'x3': x3, 'y3': y3, 'inds3': d.perm_inds[0]}

    def prop(out, ins):
        x, y = np.asarray(out['x'], dtype=object), np.asarray(out['y'], dtype=object)
        xs = np.asarray(ins['xs'], dtype=object)
        if x.shape != (2, 5, 5, 1) or y.shape != x.shape:
            return [('batch shape', False)]
        c = []
        for tag, nm in (('', ''), ('3', ' of an explicit permutation')):
            x, y = np.asarray(out['x' + tag], dtype=object), np.asarray(out['y' + tag], dtype=object)
            for b in range(2):
                i = flat(out['inds' + tag])[b]
                c.append((f'row {b} is the enumerated image{nm}', z.AND(
                    *[z.EQ(x[(b, *p)], pick([xs[(k, *p)] for k in range(4)], i)) for p in np.ndindex(5, 5, 1)])))
                c.append((f'row {b} is paired with its own corruption{nm}', painted(x[b], y[b], 2)))
            # every item has its own corruption: the blank squares of two items can differ
            c.append((f'can: two rows are corrupted at different places{nm}', z.OR(*[
                z.AND(z.EQ(y[(0, *p)], 0), z.NOT(z.EQ(x[(0, *p)], 0)), z.NOT(z.EQ(y[(1, *p)], 0)))
                for p in np.ndindex(5, 5, 1)])))
        return c
    case('N03', 'Image.enumerate_subset/inpaint-2', {'xs': ('real', (4, 5, 5, 1))}, f, prop)

    def f(key, xs):
        d = image('none', (2, 2, 1), xs)
        d.init_enumeration(key, 2)
        x, y = d.enumerate_subset(0)
        return {'x': x, 'inds': d.perm_inds[0], 'none': jnp.asarray(y is None)}

    def prop(out, ins):
        x, xs = np.asarray(out['x'], dtype=object), np.asarray(ins['xs'], dtype=object)
        return [('no corrupted images', flat(out['none'])[0] is True)] + [
            (f'row {b} is the enumerated image', z.AND(
                *[z.EQ(x[(b, *p)], pick([xs[(k, *p)] for k in range(3)], flat(out['inds'])[b]))
                  for p in np.ndindex(2, 2, 1)])) for b in range(2)]
    case('N03', 'Image.enumerate_subset/none', {'xs': ('real', (3, 2, 2, 1))}, f, prop)


def painted(x, y, s):
    """y = x with one s x s square set to zero"""
    x, y = np.asarray(x, dtype=object), np.asarray(y, dtype=object)
    if x.shape != y.shape:
        return False
    w, h, c = x.shape
    alts = []
    for a in range(w - s + 1):
        for b in range(h - s + 1):
            alts.append(z.AND(*[z.EQ(y[p], 0 if a <= p[0] < a + s and b <= p[1] < b + s else x[p])
                                for p in np.ndindex(w, h, c)]))
    return z.OR(*alts)


# ------------------------------------------------------------------ N04 enumeration
def n04():
    from fbs.data.base import Dataset

    class D(Dataset):
        pass

    for n, b, th in [(4, 2, False), (5, 2, False), (3, 3, False), (6, 2, False), (7, 3, True), (4, 1, False)]:
        def f(key, xs, n=n, b=b):
            d = D()
            d.n, d.xs = n, xs
            inds = d.init_enumeration(key, b)
            out = {'inds': jnp.stack(inds), 'stored': jnp.stack(d.perm_inds)}
            for i in range(n // b):
                out[f'rows{i}'] = d.enumerate_subset(i)
                out[f'rows_arg{i}'] = d.enumerate_subset(n // b - 1 - i, perm_inds=inds[::-1])
            return out

        def prop(out, ins, n=n, b=b):
            k = n // b
            ind = np.asarray(out['inds'], dtype=object)
            c = [('number of batches', ind.shape == (k, b)), ('stored permutation', alleq(out['stored'], ind))]
            for p in range(k * b):
                c.append((f'item {p} is visited exactly once', once(p, flat(ind))))
            xs = np.asarray(ins['xs'], dtype=object)
            for i in range(k):
                for nm in ('rows', 'rows_arg'):
                    r = np.asarray(out[f'{nm}{i}'], dtype=object)
                    c.append((f'batch {i} holds its rows', r.shape == (b, 2) and z.AND(
                        *[z.EQ(r[j, q], pick(list(xs[:, q]), ind[i, j])) for j in range(b) for q in range(2)])))
            return c
        case('N04', f'init_enumeration+enumerate_subset/n {n}/batch {b}', {'xs': ('real', (n, 2))}, f, prop, th)

    for n, b in [(4, 2), (3, 3), (5, 1)]:
        def f(key, xs, n=n, b=b):
            d = D()
            d.n, d.xs = n, xs
            return {'rows': d.draw_subset(key, b)}

        def prop(out, ins, n=n, b=b):
            r = np.asarray(out['rows'], dtype=object)
            xs = np.asarray(ins['xs'], dtype=object)
            c = [('shape', r.shape == (b, 2))]
            if r.shape != (b, 2):
                return c
            # rows distinct data items: some injective choice of items explains the batch
            alts = [z.AND(*[z.EQ(r[j, q], xs[pi[j], q]) for j in range(b) for q in range(2)])
                    for pi in itertools.permutations(range(n), b)]
            c += [(f'can: item {i} is in the batch', z.OR(*[alleq(r[j], xs[i]) for j in range(b)])) for i in range(n)]
            return c + [('the batch consists of distinct data items', z.OR(*alts))]
        case('N04', f'draw_subset/n {n}/batch {b}', {'xs': ('real', (n, 2))}, f, prop)

    def f(key, xs):
        d = mk('supr-2', (2, 2, 1), True, xs=xs, n=3)
        d.init_enumeration(key, 1)
        return {'rows': jnp.stack([d.enumerate_subset(i)[0] for i in range(3)]),
                'rows2': jnp.stack([d.enumerate_subset(2 - i, perm_inds=d.perm_inds[::-1])[0] for i in range(3)])}

    def prop(out, ins):
        r, xs = np.asarray(out['rows'], dtype=object), np.asarray(ins['xs'], dtype=object)
        return [('an explicit permutation is followed', alleq(out['rows2'], r))] + [('an epoch visits every image once', r.shape == xs.shape and z.OR(
            *[z.AND(*[alleq(r[j], xs[pi[j]]) for j in range(3)]) for pi in itertools.permutations(range(3))]))]
    case('N04', 'ImageRestore.enumerate_subset/n 3', {'xs': ('real', (3, 2, 2, 1))}, f, prop)


# ------------------------------------------------------------------ N06 corruptions
def n06():
    from fbs.data.images import Image, normalise

    def image(task, shape):
        d = Image.__new__(Image)
        d.image_shape, d.task = shape, task
        return d

    for (w, h, c), s, th in [((5, 5, 1), 2, False), ((4, 6, 2), 3, False), ((7, 4, 1), 1, False), ((4, 4, 1), 4, False),
                             ((8, 8, 1), 3, True)]:
        def f(key, img, shape=(w, h, c), s=s):
            return {'y': image(f'inpaint-{s}', shape).corrupt(key, img)}

        def prop(out, ins, s=s):
            return [('the image with one blank square', painted(ins['img'], out['y'], s))]
        case('N06', f'corrupt/inpaint-{s}/{w}x{h}x{c}', {'img': ('real', (w, h, c))}, f, prop, th)
    for (w, h, c), th in [((8, 8, 1), False), ((16, 8, 1), False), ((8, 24, 1), False), ((24, 16, 2), True)]:
        def f(key, img, shape=(w, h, c)):
            return {'y': image('supr', shape).corrupt(key, img)}

        def prop(out, ins, w=w, h=h, c=c):
            y, x = np.asarray(out['y'], dtype=object), np.asarray(ins['img'], dtype=object)
            if y.shape != x.shape:
                return [('shape', False)]
            alts = []
            for r in (4, 8):
                t = []
                for a in range(0, w, r):
                    for b in range(0, h, r):
                        for ch in range(c):
                            v = y[a, b, ch]
                            t += [z.EQ(y[a + i, b + j, ch], v) for i in range(r) for j in range(r)]
                            t.append(z.OR(*[z.EQ(v, x[a + i, b + j, ch]) for i in range(r) for j in range(r)]))
                alts.append(z.AND(*t))
            return [('constant on the blocks of a factor 4 or 8, each with a pixel of its block', z.OR(*alts))]
        case('N06', f'corrupt/supr/{w}x{h}x{c}', {'img': ('real', (w, h, c))}, f, prop, th)

    def f(key, img):
        return {'clip': normalise(img), 'norm': normalise(img, method='norm')}

    def prop(out, ins):
        a, b, x = (np.asarray(t, dtype=object) for t in (out['clip'], out['norm'], ins['img']))
        c = []
        for p in np.ndindex(*x.shape):
            c.append((f'clip{p} is in [0, 1]', z.AND(z.GE(a[p], 0), z.LE(a[p], 1))))
            c.append((f'clip{p} keeps values of [0, 1]', z.OR(z.LT(x[p], 0), z.GT(x[p], 1), z.EQ(a[p], x[p]))))
            c.append((f'clip{p} saturates', z.AND(z.OR(z.GE(x[p], 0), z.EQ(a[p], 0)), z.OR(z.LE(x[p], 1), z.EQ(a[p], 1)))))
        for ch in range(x.shape[-1]):
            for bt in range(x.shape[0]):
                col = [x[bt, i, j, ch] for i in range(x.shape[1]) for j in range(x.shape[2])]
                o = [b[bt, i, j, ch] for i in range(x.shape[1]) for j in range(x.shape[2])]
                flatc = z.AND(*[z.EQ(col[0], v) for v in col[1:]])
                for k, v in enumerate(o):
                    c.append((f'norm is in [0, 1] ({bt},{ch},{k})', z.OR(flatc, z.AND(z.GE(v, -TOL), z.LE(v, 1 + TOL)))))
                    lo = z.AND(*[z.LE(col[k], w) for w in col])
                    hi = z.AND(*[z.GE(col[k], w) for w in col])
                    c.append((f'the darkest pixel becomes 0 ({bt},{ch},{k})', z.OR(flatc, z.NOT(lo), z.EQ(v, 0))))
                    c.append((f'the brightest pixel becomes 1 ({bt},{ch},{k})', z.OR(flatc, z.NOT(hi), z.EQ(v, 1))))
        return c
    case('N06', 'normalise', {'img': ('real', (2, 1, 2, 2))}, f, prop)


from fractions import Fraction
TOL = Fraction(0)


# ------------------------------------------------------------------ N09 pixel shuffle
def n09():
    for (b, h, w, c), s in [((1, 2, 2, 1), 2), ((2, 1, 2, 2), 2), ((1, 2, 1, 3), 2), ((1, 2, 2, 1), 3), ((2, 3, 2, 2), 1)]:
        def f(key, x, s=s):
            from fbs.nn.utils import PixelShuffle
            return {'y': PixelShuffle(scale=s)(x)}

        def prop(out, ins, dims=(b, h, w, c), s=s):
            b, h, w, c = dims
            y, x = np.asarray(out['y'], dtype=object), np.asarray(ins['x'], dtype=object)
            if y.shape != (b, h * s, w * s, c):
                return [('shape', False)]
            con = []
            for i, j, ch in itertools.product(range(s), range(s), range(c)):
                con.append((f'sub-pixel ({i},{j}) of channel {ch} comes from one input channel of the same block, the same '
                            'for all blocks', z.OR(*[z.AND(*[z.EQ(y[bb, hh * s + i, ww * s + j, ch], x[bb, hh, ww, q])
                                                             for bb in range(b) for hh in range(h) for ww in range(w)])
                                                     for q in range(s * s * c)])))
            for q in range(s * s * c):
                con.append((f'input channel {q} is kept', z.OR(
                    *[z.EQ(y[0, i, j, ch], x[0, 0, 0, q]) for i in range(s) for j in range(s) for ch in range(c)])))
            return con
        case('N09', f'PixelShuffle/scale {s}/{(b, h, w, c)}', {'x': ('real', (b, h, w, s * s * c))}, f, prop)


for _f in (n01, n02, n03, n04, n06, n09):
    _f()
