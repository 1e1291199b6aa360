"""Loader configurations shared by the check and the replay."""
import contextlib
import numpy as np
import jax
import jax.numpy as jnp

MN = {'X': (60000, 784), 'X_test': (10000, 784)}
CI = {'train_data': (50000, 32, 32, 3), 'test_data': (10000, 32, 32, 3)}
CASES = {}
for cls in ('MNIST', 'MNISTRestore'):
    for test in (False, True):
        CASES[f'{cls}-{test}'] = (f'{cls}/{"test" if test else "train"}', cls, test, MN,
                                  dict(task='inpaint-15' if 'Restore' in cls else 'deconv-15'))
for test in (False, True):
    CASES[f'CIFAR10-{test}'] = (f'CIFAR10/{"test" if test else "train"}', 'CIFAR10', test, CI, {})
for cls in ('CelebAHQ', 'CelebAHQRestore'):
    for test in (False, True):
        CASES[f'{cls}-{test}'] = (f'{cls}/{"test" if test else "train"}', cls, test, {'': (30000, 8, 8, 3)},
                                  dict(resolution=8, task='supr-4'))
CASES['CelebAHQRestore-64'] = ('CelebAHQRestore/train/resolution 64', 'CelebAHQRestore', False, {'': (30000, 64, 64, 3)},
                               dict(task='inpaint-16'))
SPLIT = ('CelebAHQ', 'CelebAHQRestore')


@contextlib.contextmanager
def patched_load(files):
    hook = [files]
    old = jnp.load

    def load(path, *a, **k):
        return hook[0][''] if '' in hook[0] else dict(hook[0])
    jnp.load = load
    try:
        yield hook
    finally:
        jnp.load = old


def build(cls, key, test, kw):
    import fbs.data.images as im
    return getattr(im, cls)(key, 'no-such-file', test=test, **kw)


def expect(cls, test, res=None):
    """(array of the file, its number of rows, offset of the split, number of items, item shape)"""
    if 'MNIST' in cls:
        return ('X_test', 10000, 0, 10000, (28, 28, 1)) if test else ('X', 60000, 0, 60000, (28, 28, 1))
    if cls == 'CIFAR10':
        return ('test_data', 10000, 0, 10000, (32, 32, 3)) if test else ('train_data', 50000, 0, 50000, (32, 32, 3))
    return ('', 30000, 0, 1000, (res or 8, res or 8, 3)) if test else ('', 30000, 1000, 29000, (res or 8, res or 8, 3))
