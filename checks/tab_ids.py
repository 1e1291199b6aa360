"""The scripts that turn stored results into the tables and figures: what they print and plot, for arbitrary contents of
the files, and that the files they read are the ones the experiment scripts write."""
import os
import re
import types
import numpy as real_np
import jax
import jax.numpy as jnp
from .sde_ids import ident, r
from . import scripts
from .exp_ids import toy, sb, K
from . import img_ids

TAB = 'experiments/tabulators/'
NUMBER = re.compile('\x01(\\d+)\x02')


class NotEncoded(Exception):
    """the script is organised in a way the stated configuration cannot be imposed on"""


def norm(fn):
    return os.path.normpath(str(fn))


def numbers(R):
    """per printed line: its text and {label: formatted values}, the label being the last word before them"""
    o = []
    for line in R.lines:
        vals, label, at = {}, '', 0
        for q in NUMBER.finditer(line):
            words = re.findall(r'[A-Za-z]+', line[at:q.start()])
            label = words[-1] if words else label
            vals.setdefault(label, []).append(jnp.asarray(scripts.opened(R.vals[int(q[1])])))
            at = q.end()
        if vals:
            o.append((line[:line.index('\x01')], vals))
    return o


def dist(name):
    def st(real, a, out):
        f = out.env.uf(name, sum(jnp.size(q) for q in a.values()))
        return f(*[x for q in a.values() for x in jnp.ravel(jnp.asarray(q) * 1.)])
    return st


DISTS = {'fbs.utils': {'kl': dist('kl'), 'bures_dist': dist('bures')}}


def cov(x):
    z = x - jnp.sum(x, axis=0) / x.shape[0]
    return z.T @ z / (x.shape[0] - 1)


def mean(x):
    return jnp.sum(x, axis=0) / x.shape[0]


def meanstd(xs):
    m = sum(xs) / len(xs)
    return jnp.stack([m, jnp.sqrt(sum((x - m) ** 2 for x in xs) / len(xs))])


def errors(env, S, m, C):
    """errors of the chains S against N(m, C), averaged over the chains"""
    o = {'KL': [], 'Bures': [], 'Mean': [], 'Var': []}
    for s in S:
        a, c = mean(s), cov(s)
        arg = [x for q in (m, C, a, c) for x in jnp.ravel(q)]
        o['KL'].append(env.uf('kl', len(arg))(*arg))
        o['Bures'].append(env.uf('bures', len(arg))(*arg))
        o['Mean'].append(jnp.sum(jnp.abs(a - m)) / m.size)
        o['Var'].append(sum(jnp.abs(c[i, i] - C[i, i]) for i in range(m.size)) / m.size)
    return {k: sum(v) / len(v) for k, v in o.items()}


def moments(x, axis=0, p=3, **k):
    z = x - jnp.mean(x, axis=axis, keepdims=True)
    return jnp.mean(z ** p, axis=axis)


def scipy_stub():
    st = types.ModuleType('scipy.stats')
    st.skew, st.kurtosis = moments, lambda x, axis=0, **k: moments(x, axis, 4)
    sc = types.ModuleType('scipy')
    sc.stats = st
    return {'scipy': sc, 'scipy.stats': st}


class Store:
    """np.load over files of arbitrary contents: data(method, run) is what the file of that run holds"""
    def __init__(self, pattern, data, nmax, runs=2):
        self.pattern, self.data, self.nmax, self.runs = pattern, data, nmax, runs
        self.methods, self.read, self.names = [], set(), []

    def __call__(self, fn):
        q = re.fullmatch(self.pattern, norm(fn))
        if not q:
            raise NotEncoded(f'{fn} is not a file of the expected directory')
        method, j = q[1], int(q[2])
        if j >= self.runs:
            raise NotEncoded('number of runs')
        if method not in self.methods:
            self.methods.append(method)
        i = self.methods.index(method)
        if i >= self.nmax:
            raise NotEncoded('number of methods')
        self.read.add((i, j))
        self.names.append(norm(fn))
        return self.data(method, i, j)


def mcmc(method):
    return method.startswith(('gibbs', 'pmcmc'))


def toy_store(S, m, C):
    return Store(r'toy/results/(.+)-(\d+)\.npz',
                 lambda q, i, j: {'samples': S[i, j] if mcmc(q) else S[i, j, 0], 'gp_mean': m[i, j], 'gp_cov': C[i, j]}, S.shape[0])


def tabulate_toy(env, store):
    return scripts.run(TAB + 'tabulate_toy.py', [], DISTS, {'max_mcs': 2}, store, prints=True, modules=scipy_stub(), env=env, exact=False)


@ident('X08', 'tabulate_toy: errors', S=r(6, 2, 2, 3, 2), m=r(6, 2, 2), C=r(6, 2, 2, 2))
def _(env, S, m, C):
    st = toy_store(S, m, C)
    rows = numbers(tabulate_toy(env, st))
    o = {'one row per method': (float(len(rows)), float(len(st.methods))),
         'every run is read': (float(len(st.read)), 2. * len(st.methods))}
    for text, vals in rows:
        of = [q for q in st.methods if re.search(rf'(?<![\w.-]){re.escape(q)}(?![\w.-])', text)]
        o[f'{text.strip()} names its method'] = (float(len(of)), 1.)
        if len(of) == 1:
            i = st.methods.index(of[0])
            es = [errors(env, S[i, j] if mcmc(of[0]) else S[i, j, :1], m[i, j], C[i, j]) for j in range(2)]
            for k in ('KL', 'Bures', 'Mean', 'Var'):
                o[f'{of[0]}: {k}'] = (jnp.stack(vals[k]) if k in vals else jnp.zeros(0), meanstd([e[k] for e in es]))
    return o


def toy_script(method, run):
    """the script and options of a row of the table"""
    q = re.fullmatch(r'(filter|gibbs|pmcmc|twisted|csgm)((?:-eb|-ef|-marg)*)(?:-([\d.]+))?-(const|lin)(?:-(\d+))?', method)
    if not q:
        return None
    kind, flags, delta, sde, n = q.groups()
    extra = ['--id', run] + [{'eb': '--explicit_backward', 'ef': '--explicit_final', 'marg': '--marg'}[z]
                             for z in flags.split('-')[1:]]
    extra += ['--delta', delta] if delta else []
    return f'gp_{kind}', sde, int(n or 2), extra


def written(R):
    fn, _, arrs = R.saved[-1]
    fn = norm(fn)
    return fn if fn.endswith('.npz') else fn + '.npz', arrs


@ident('X08', 'tabulate_toy: reads what the experiments write', k=K)
def _(env, k):
    st = toy_store(jnp.zeros((6, 2, 2, 3, 2)), jnp.zeros((6, 2, 2)), jnp.zeros((6, 2, 2, 2)))
    tabulate_toy(env, st)
    o = {}
    for q in st.methods:
        s = toy_script(q, 1)
        o[f'{q} is written by a script'] = (float(s is not None), 1.)
        if s is not None:
            name, sde, n, extra = s
            chains = {'chains': 2} if mcmc(q) else {}
            R = toy(name, 2, sde, n=n, m=1, nsteps=2, extra=extra, key=k, **chains)[0]
            fn, arrs = written(R)
            o[f'{q} is the name written'] = (float(fn in st.names), 1.)
            o[f'{q}: entries'] = (float({'samples', 'gp_mean', 'gp_cov'} <= set(arrs)), 1.)
            want = (2, 1, 2) if mcmc(q) else (1, 2)
            o[f'{q}: layout of the samples'] = (float(tuple(arrs['samples'].shape) == want), 1.)
    return o


# ---------------------------------------------------------------- figures
class Axes:
    def __init__(self, log):
        self.log = log

    def plot(self, x, y, *a, **k):
        self.log.append(('plot', x, y, k))

    def fill_between(self, x, y1, y2=0., **k):
        self.log.append(('fill', x, (y1, y2), k))

    def __getattr__(self, k):
        return scripts.Null(k) if not k.startswith('__') else object.__getattribute__(self, k)


def plt_stub(log):
    p = types.ModuleType('matplotlib.pyplot')
    ax = Axes(log)
    p.subplots = lambda *a, **k: (scripts.Null('fig'), ax)
    p.plot, p.fill_between, p.gca = ax.plot, ax.fill_between, lambda: ax
    p.rcParams = {}
    p.__getattr__ = lambda k: scripts.Null(k)
    m = types.ModuleType('matplotlib')
    m.pyplot = p
    m.__getattr__ = lambda k: scripts.Null(k)
    return {'matplotlib': m, 'matplotlib.pyplot': p}


def val(x):
    return jnp.asarray(scripts.opened(x)) * 1.


def quantile(env):
    """np.quantile as an arbitrary function of the level and the entries along the axis"""
    def f(a, q, axis=None, **k):
        a = jnp.moveaxis(val(a), axis or 0, 0)
        if jnp.ndim(q):
            return jnp.stack([f(a, z, 0) for z in q])
        return env.uf('quantile', 1 + a.shape[0])(jnp.asarray(q, float), *[a[i] for i in range(a.shape[0])])
    return f


SB = {'PF (ideal)': 'filter-proper', 'PF (approximate)': 'filter-heuristic', 'Gibbs-CSMC': 'gibbs-eb'}


def plot_sb(env, store, log):
    return scripts.run(TAB + 'plot_sb.py', [], DISTS, {'max_mcs': 2}, store, modules=plt_stub(log),
                       npover={'quantile': quantile(env), 'percentile': lambda a, q, axis=None, **k: quantile(env)(a, real_np.asarray(q) / 100, axis)}, env=env, exact=False)


def sb_store(S, m, C):
    return Store(r'sb/results/(.+)-(\d+)\.npz', lambda q, i, j: {'samples': S[i, j], 'gp_mean': m[i, j], 'gp_cov': C[i, j]}, S.shape[0])


@ident('X08', 'plot_sb: curves', S=r(18, 2, 3, 1), m=r(18, 2, 1), C=r(18, 2, 1, 1))
def _(env, S, m, C):
    st, log = sb_store(S, m, C), []
    plot_sb(env, st, log)

    def err(method, j):
        i = st.methods.index(method)
        a = [x for q in (m[i, j], C[i, j], mean(S[i, j]), cov(S[i, j])) for x in jnp.ravel(q)]
        return env.uf('bures', len(a))(*a)
    curves = [(q[3].get('label'), q) for q in log if q[0] == 'plot']
    o = {'curves': (float(sorted(c[0] for c in curves) == sorted(SB)), 1.)}
    fills = [q for q in log if q[0] == 'fill']
    o['bands'] = (float(len(fills)), 3.)
    for label, (_, x, y, _k) in curves:
        if label not in SB:
            continue
        e = jnp.stack([jnp.stack([err(f'{SB[label]}-{int(n)}', j) for n in x]) for j in range(2)])
        o[f'{label}: mean error'] = (val(y), sum(e) / 2)
        band = [[env.uf('quantile', 3)(jnp.float64(z), e[0], e[1]) for z in (.05, .95)]]
        k = [c[0] for c in curves].index(label)
        if k < len(fills):
            lo, hi = fills[k][2]
            o[f'{label}: band'] = (jnp.stack([val(lo), val(hi)]), jnp.stack(band[0]))
    return o


@ident('X08', 'plot_sb: reads what the experiments write', k=K)
def _(env, k):
    st = sb_store(jnp.zeros((18, 2, 3, 1)), jnp.zeros((18, 2, 1)), jnp.zeros((18, 2, 1, 1)))
    plot_sb(env, st, [])
    o = {}
    for q in st.methods:
        z = re.fullmatch(r'(filter|gibbs)-(proper|heuristic|eb)-(\d+)', q)
        o[f'{q} is written by a script'] = (float(z is not None), 1.)
        if z and int(z[3]) <= 4:
            extra = ['--id', 1] + (['--x0', z[2]] if z[1] == 'filter' else ['--explicit_backward'])
            fn, arrs = written(sb(env, z[1], 1, n=int(z[3]), m=1, nsteps=2, extra=extra, key=k))
            o[f'{q} is the name written'] = (float(fn in st.names), 1.)
            o[f'{q}: entries'] = (float({'samples', 'gp_mean', 'gp_cov'} <= set(arrs)), 1.)
            o[f'{q}: layout of the samples'] = (float(tuple(arrs['samples'].shape) == (1, 1)), 1.)
    return o


LAGS = 2


@ident('X08', 'plot_autocorrs_toy: curves', S=r(6, 2, 2, 3, 2))
def _(env, S):
    def ac(x, axis=0, **k):
        x = jnp.moveaxis(val(x), axis, 0)
        n = x.shape[0]
        return jnp.moveaxis(jnp.stack([env.uf('ac', n + 1)(jnp.float64(i), *[x[j] for j in range(n)]) for i in range(n)]), 0, axis)

    def vectorize(f, signature=None, **k):
        if signature is None or signature.replace(' ', '') != '(m,n)->(m,n)':
            raise NotEncoded('np.vectorize')

        def g(x):
            return jnp.stack([g(x[i]) for i in range(x.shape[0])]) if x.ndim > 2 else f(x)
        return g
    npr = types.ModuleType('numpyro')
    npr.diagnostics = types.ModuleType('numpyro.diagnostics')
    npr.diagnostics.autocorrelation = ac
    st, log = toy_store(S, jnp.zeros((6, 2, 2)), jnp.zeros((6, 2, 2, 2))), []
    scripts.run(TAB + 'plot_autocorrs_toy.py', [], {}, {'max_mcs': 2, 'max_lags': LAGS}, st,
                modules={**plt_stub(log), 'numpyro': npr, 'numpyro.diagnostics': npr.diagnostics}, npover={'vectorize': vectorize}, env=env, exact=False)
    o = {'one curve per method': (float(len(log)), float(len(st.methods)))}
    for _q, x, y, k in log:
        q = re.fullmatch(r'(Gibbs-CSMC|PMCMC-[\d.]+)-(\d+)', k.get('label', ''))
        if not q:
            raise NotEncoded('label of the curve')
        name = f"{'gibbs-eb' if q[1].startswith('G') else q[1].lower()}-const-{q[2]}"
        o[f'{q[0]} is drawn from its method'] = (float(name in st.methods), 1.)
        if name in st.methods:
            i = st.methods.index(name)
            want = 0.
            for j in range(2):
                a = sum(ac(S[i, j, c]) for c in range(2)) / 2
                want = want + jnp.max(a[:LAGS], axis=-1) / 2
            o[f'{q[0]}: curve'] = (val(y), want)
            o[f'{q[0]}: lags'] = (val(x), jnp.arange(LAGS) * 1.)
    return o


# ---------------------------------------------------------------- images
def tabulate_imgs(env, task, load):
    def metric(name):
        def f(a, b, data_range=None, channel_axis=None, **k):
            x = [val(z).reshape(-1) for z in (a, b)]
            return env.uf(name, 2 + 2 * x[0].size)(jnp.float64(data_range if data_range is not None else -9.),
                                                   jnp.float64(channel_axis if channel_axis is not None else 9), *x[0], *x[1])
        return f
    sk, met = types.ModuleType('skimage'), types.ModuleType('skimage.metrics')
    sk.metrics = met
    met.structural_similarity, met.peak_signal_noise_ratio = metric('ssim'), metric('psnr')
    torch, lp = types.ModuleType('torch'), types.ModuleType('lpips')
    torch.Tensor = torch.tensor = torch.as_tensor = lambda x, **k: x

    class LPIPS:
        def __init__(self, *a, **k):
            pass

        def forward(self, a, b, **k):
            x = [val(z).reshape(-1) for z in (a, b)]
            return env.uf('lpips', 2 * x[0].size)(*x[0], *x[1])
        __call__ = forward
    lp.LPIPS = LPIPS
    return scripts.run(TAB + 'tabulate_imgs.py', [], {'fbs.data.images': {'normalise': st_normalise}}, {'dataset': 'celeba-2', 'task': task, 'ny0s': 2, 'nsamples': 2, 'nparticles': 3},
                       load, prints=True, env=env, exact=False,
                       modules={'skimage': sk, 'skimage.metrics': met, 'torch': torch, 'lpips': lp})


METHODS = ('filter', 'gibbs-eb-ef', 'pmcmc-0.005', 'twisted', 'csgm')


def st_normalise(real, a, out):
    """the clipping to [0, 1] of N06, as an opaque function of the pixel and the method"""
    img, method = list(a.values())[:2]
    return clip(out.env, jnp.asarray(img) * 1., method)


def clip(env, x, method='clip'):
    return env.uf('normalise', 2)(x, jnp.float64(len(method)))


def img_table(task, size):
    short = task.split('-')[0]
    pat = re.compile(rf'imgs/results_{short}/arrs/celeba-2-{size}-lin-(?:(3)-)?(\d+)-(.+)\.np[yz]')

    @ident('X08', f'tabulate_imgs {task}: scores', X=r(2, 2, 2, 3), Y=r(5, 2, 2, 2, 2, 3))
    def f(env, X, Y):
        read = []

        def load(fn):
            q = pat.fullmatch(norm(fn))
            if not q or int(q[2]) > 1 or q[3] not in METHODS + ('true',):
                raise NotEncoded(str(fn))
            read.append(q[3])
            return {'test_img': X[int(q[2])]} if q[3] == 'true' else Y[METHODS.index(q[3]), int(q[2])]
        rows = numbers(tabulate_imgs(env, task, load))
        o = {'one row per method': (float(len(rows)), 5.)}
        for text, vals in rows:
            of = [q for q in METHODS if q in text]
            o[f'{text.strip()} names its method'] = (float(len(of)), 1.)
            for name, key in (('PSNR', 'psnr'), ('SSIM', 'ssim')):
                if len(of) != 1:
                    continue
                i, w = METHODS.index(of[0]), []
                for j in range(2):
                    for s in range(2):
                        ch = 9. if key == 'psnr' else -1.
                        w.append(env.uf(key, 26)(jnp.float64(1.), jnp.float64(ch), *clip(env, X[j]).reshape(-1), *clip(env, Y[i, j, s]).reshape(-1)))
                o[f'{of[0]}: {name}'] = (jnp.stack(vals[name]) if name in vals else jnp.zeros(0), meanstd(w))
        return o

    @ident('X08', f'tabulate_imgs {task}: reads what the experiments write', k=K, img=r(2, 2, 3))
    def g(env, k, img):
        names = set()

        def load(fn):
            if not pat.fullmatch(norm(fn)) and 'celeba-2' not in str(fn):
                raise NotEncoded(str(fn))
            names.add(norm(fn))
            return {'test_img': jnp.zeros((2, 2, 3))} if str(fn).endswith('z') else jnp.zeros((2, 2, 2, 3))
        tabulate_imgs(env, task, load)
        made, base = set(), 'imgs/' + short
        for script, method in ((base, 'filter'), (base, 'gibbs-eb-ef'), (base, 'pmcmc-0.005'), (base + '_twisted', None), (base + '_csgm', None)):
            extra = ('--sde', 'lin', '--ny0s', '1') + (('--method', method) if method else ())
            R = img_ids.imgs(env, script, img, extra, n=3, m=1, key=k)
            for fn, arrs, named in R.saved:
                fn = norm(fn)
                made.add(fn if fn.endswith(('.npy', '.npz')) else fn + ('.npz' if named else '.npy'))
        first = {q for q in names if pat.fullmatch(q) and pat.fullmatch(q)[2] == '0'}
        o = {f'{q} is written': (float(q in made), 1.) for q in sorted(first)}
        o['files of the first image'] = (float(len(first)), 6.)
        return o


img_table('supr-2', 2)
img_table('inpainting-1', 1)
