"""X checks: the experiment scripts."""
from . import sde, exp_ids, img_ids, train_ids, tab_ids


def run(c, explanation, *bounds):
    c.stub('library samplers called by the script: recorders returning fresh random values (their own behaviour is S/D); '
           'np.savez/np.load, plotting, printing and jit are stand-ins; nsteps is shrunk')
    for b in bounds:
        c.bound(b)
    c.assume('float literals of the script denote exact reals; the script is executed statement by statement from its '
             'current source')
    return sde.run(c, explanation)


D12 = 'dimension 1 and 2, two particles, three (paths: two) time steps; both SDE options'


def x01(c): return run(c, 'recorded transition / likelihood callbacks equal the Euler step of the exact time reversal of the '
                          'noised Gaussian joint, for every state and time', D12)
def x02(c): return run(c, 'law of the recorded reference samplers, observation paths and noising samplers', D12)
def x03(c): return run(c, 'recorded callbacks of the twisted and conditional-score samplers against the exact model', D12)
def x04(c): return run(c, 'recorded callbacks of the Schroedinger-bridge scripts, for an arbitrary bridge', D12,
                       'arbitrary marginal mean/covariance and drift functions; reference factor block triangular (every '
                       'covariance has one)')
def x05(c): return run(c, 'recorded callbacks, stored images and chains of the image scripts, for an arbitrary network', 'images of '
                          '2x2 pixels (all pixel values symbolic), one fixed placement of the missing pixels per task, two particles, '
                          '1-3 time steps; the conditional-score sampler with networks affine in the image')
def x06(c): return run(c, 'stored posterior and samples, chain initialisation and threading, options', 'two samples per run, '
                       'one or two chains, dimension 1 and 2')
def x07(c): return run(c, 'updates, data, losses, random times, checkpoints of the training scripts, and what the test scripts read',
                       'dataset, network, optimiser and loss are opaque (arbitrary values per call); two batches per epoch; 1, 2 '
                       'and 100 epochs, up to three bridge iterations, 2 and 4 training times')
def x08(c): return run(c, 'printed tables and plotted curves for arbitrary contents of the result files, and the names of the files '
                          'against those the experiment scripts write', 'two runs per method (two images, two samples), three samples of '
                          'dimension 1 and 2, two chains, two lags; distances, scores, autocorrelations and quantiles are opaque functions '
                          'of their arguments')
