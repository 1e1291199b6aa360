"""Source of properties.jsonl and MANIFEST.json (python tools/gen.py)."""
PROPS = []
SMC, CSMC, CRES, RES, GIB = ('fbs/samplers/smc.py', 'fbs/samplers/csmc/csmc.py', 'fbs/samplers/csmc/resamplings.py',
                             'fbs/samplers/resampling.py', 'fbs/samplers/gibbs.py')
LAW = ('z3 over the exact outcome law obtained by symbolic execution of the jaxpr traced from the current source')
TRUST = (' Trusted: the symbolic rules for jax primitives, the contracts of jax.random (independent uniform/normal/choice draws from '
         'distinct keys), real arithmetic instead of floating point, z3.')


def prop(id, title, statement, text, why, files, mech, note, over=('inputs',), technique=LAW, level='model_checking', na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files,
                      mech=mech, note=note, technique=technique, level=level, na=na))


prop('S01', 'Resampling is unbiased',
     'For every vector of normalised weights, every resampling scheme (multinomial, sorted multinomial, stratified, systematic, killing) '
     'returns as many in-range particle indices as there are weights, and the expected number of copies of particle i is exactly N w_i.',
     'all weight vectors on the simplex (zeros included), all random draws',
     'Tests compare Monte-Carlo frequencies for a few weight vectors; the claim is an identity over the whole simplex.',
     [RES, CRES], [('inverse-cdf resampling', RES), ('killing resampling', CRES)],
     'Decided for every weight vector for up to 3 (quick) or 4 (thorough) particles; larger N outside the bound.')
prop('S02', 'Systematic and stratified resampling have low variance',
     'In every run of systematic resampling each particle is copied floor(N w_i) or ceil(N w_i) times, and for both systematic and '
     'stratified resampling the indices come back in increasing order and the number of copies of the first i particles is within one of N times their total weight.',
     'all weight vectors, all uniform draws',
     'A worst-case statement over every uniform draw; the tests only average over draws.',
     [RES], [('ordered uniforms and searchsorted', RES)],
     'Path-wise for N up to 3 (quick) or 4 (thorough).')
prop('S03', 'Conditional resampling is the conditional law of the unconditional scheme',
     'For every weight vector and every pair (i, j), conditional resampling always returns i at position j and its other outcomes have '
     'exactly the law of the unconditional scheme (up to the uniformly random cyclic shift it documents for killing) given that position j received i.',
     'all weight vectors, all reference positions and values',
     'Needs exact conditional laws at every (i, j); tests only check pooled frequencies on one weight vector.',
     [CRES], [('conditional branch and random roll', CRES)],
     'Exact laws for N up to 3, all (i, j).')
prop('S04', 'Conditional SMC leaves the smoothing distribution invariant (genealogy tracing)',
     'When the reference trajectory is distributed according to the smoothing distribution of the model and its indices are uniform, one '
     'conditional-SMC update with genealogy tracing returns a trajectory with that same distribution, for any model and any conditional resampling scheme offered.',
     'all models (initial, transition and measurement laws), all reference trajectories, all draws',
     'Invariance is an identity over all models and random draws; tests run long chains on one linear-Gaussian model with loose tolerances.',
     [CSMC, CRES], [('forward pass with pinned reference', CSMC), ('backward scanning', CSMC)],
     'Exact one-step law on two-state models with symbolic tables for small numbers of steps and particles.', over=('inputs', 'histories'))
prop('S05', 'Conditional SMC leaves the smoothing distribution invariant (backward sampling)',
     'When the reference trajectory is distributed according to the smoothing distribution of the model and its indices are uniform, one '
     'conditional-SMC update with backward sampling returns a trajectory with that same distribution, also when measurements depend on the previous state and measurement.',
     'all models, all reference trajectories, all draws',
     'Invariance is an identity over all models and random draws; tests run long chains on one linear-Gaussian model with loose tolerances.',
     [CSMC, CRES], [('backward sampling weights', CSMC)],
     'Exact one-step law on two-state models with symbolic tables for small numbers of steps and particles.', over=('inputs', 'histories'))
prop('S06', 'The forced move keeps the weight distribution invariant',
     'For every normalised weight vector and reference index, the forced move returns an in-range index, leaves the categorical '
     'distribution given by the weights invariant, and reports the probability of actually leaving the reference.',
     'all normalised weight vectors and reference indices, all draws',
     'No test exercises it separately and the invariance is an identity over the simplex.',
     [GIB], [('forced move acceptance rule', GIB)],
     'Exact law for 2 and 3 weights (thorough: 4); weights within 1e-12 of one are outside (numerical guard branch).')
prop('S07', 'The bootstrap particle filter gives unbiased likelihood estimates',
     'For every model, measurement sequence and resampling scheme offered, the exponential of the negated returned value is an unbiased '
     'estimate of the likelihood of the measurements, and weighting the returned particles with it gives unbiased estimates of filtering integrals.',
     'all models and measurement sequences, all draws; log and non-log measurement callbacks',
     'Unbiasedness is an expectation over all draws and models; tests compare one simulated run with a Kalman filter within a tolerance.',
     [SMC, RES], [('propagate, weight, resample loop', SMC)],
     'Exact expectation on two-state models with symbolic tables, small numbers of steps and particles.', over=('inputs', 'configurations'))
prop('S08', 'The backward smoother draws from the particle smoothing law',
     'Given stored filtering particles, the backward smoother returns a trajectory through stored particles whose last element is uniform '
     'over the last particles and whose earlier elements are drawn with probabilities proportional to the transition density to the state just chosen, with independent randomness across steps.',
     'all particle systems and transition densities, all draws',
     'The joint law across steps (independence, time alignment) is invisible to the marginal comparisons in the tests.',
     [SMC], [('backward scan over stored particles', SMC)],
     'Exact path law with symbolic transition densities for small numbers of steps and particles. One open known finding (measurements depending on the state).')
prop('S09', 'The filter used inside particle MCMC is unbiased given its starting particles',
     'For every starting set of particles, the exponential of the returned log-likelihood is an unbiased estimate of the average '
     'likelihood of the measurement path over the starting particles, jointly with the final particles.',
     'all models, starting particles and measurement paths, all draws',
     'Exactness of particle MCMC rests on this expectation over all draws, which the tests never compute.',
     [SMC], [('weight, resample, propagate loop', SMC)],
     'Exact expectation on two-state models with symbolic tables, small sizes.')
prop('S10', 'Particle MCMC proposes with exact weight',
     'The pair of proposed terminal state and proposed log-likelihood of the particle-MCMC kernel satisfies that the expectation of the '
     'likelihood estimate times any function of the proposed state equals the corresponding integral under the joint law of state and measurement path, whichever particle index is selected.',
     'all models, all draws; resampling schemes offered, chosen index',
     'The target of the chain is fixed by this expectation; tests only look at rough posterior moments of one model.',
     [SMC], [('proposal of path, particles and chosen particle', SMC)],
     'Exact law on two-state models, small sizes. Open known findings: ordered resamplers with a fixed chosen index.', over=('inputs', 'configurations'))
prop('S11', 'Particle MCMC accepts with the Metropolis-Hastings probability',
     'For every current log-likelihood the kernel accepts its proposal with probability min(1, exp(proposed - current)), returns either the '
     'whole proposal (state, log-likelihood, path) or the whole current state, and its reported acceptance probability, flag and log-likelihoods match what happened.',
     'all current states and log-likelihoods, all draws',
     'Requires every branch for every likelihood ratio; the tests see one chain.',
     [SMC], [('accept/reject step', SMC)],
     'Exact law with a symbolic current log-likelihood on small two-state models.', over=('inputs', 'histories'))
prop('S12', 'The Crank-Nicolson proposal is reversible for its Gaussian reference',
     'For every step parameter, state, reference mean and pair of draws, the proposal is an affine autoregression around the reference mean '
     'whose innovation variance is one minus the squared autoregressive coefficient, so the Gaussian path law stays invariant and reversible.',
     'all positive step parameters, states, means and Gaussian draws',
     'An identity in the step parameter; tests use one value and a Monte-Carlo tolerance.',
     [SMC], [('pCN proposal', SMC)],
     'Proved for all values of the step parameter for the affine form extracted from the code (2 components).')
prop('S13', 'The twisted SMC sampler produces the twisted particle law and weights',
     'For every twisting function, transition and proposal, the sampler first weights by the twisting function, then at each step resamples '
     'with the current weights, proposes from the resampled particle, and weights by transition times new twisting over proposal times the twisting of the resampled ancestor, returning normalised log-weights.',
     'all callbacks (positive densities), all draws',
     'There are no unit tests of it; the joint law of particles and weights over all tables is out of reach of sampling.',
     [SMC], [('weight recursion and resampling', SMC)],
     'Exact joint law on two-state tables, small sizes.')
prop('S14', 'The Gibbs kernel leaves the conditional law given the observation invariant',
     'When the current state is distributed according to the conditional law given the observation, one Gibbs update returns a state with '
     'the same law, whether backward paths are drawn explicitly or not and whether the terminal law is explicit or not; the returned path ends in the returned state and the reported flags say which indices changed.',
     'all joint models of state and observation path, all draws; four configurations',
     'Invariance is an identity over models and draws; tests run one chain and check moments with a loose tolerance.',
     [GIB, CSMC, CRES], [('path refresh, conditional SMC and forced move', GIB)],
     'Exact one-step law on two-state joint models; with two steps only some tables are symbolic (listed in the evidence).',
     over=('inputs', 'histories', 'configurations'))

LIN, SIM, DSB, UT = 'fbs/sdes/linear.py', 'fbs/sdes/simulators.py', 'fbs/dsb/base.py', 'fbs/utils.py'
IDT = 'z3 over rational/exponential expressions obtained by symbolic execution of the jaxpr (and its jvp) traced from the current source'
GAU = 'z3 over the mean and covariance of the output, read off as polynomials in symbolic Gaussian draws after symbolic execution of the jaxpr'


def dprop(*a, technique=IDT, **k):
    prop(*a, technique=technique, **k)


dprop('D01', 'Linear SDE discretisation is exact',
      'For every linear SDE class and all times, the reported transition coefficient and variance are those of the exact transition of that SDE: they solve its moment equations from the identity at zero elapsed time and compose over consecutive intervals.',
      'all model parameters of the stated signs, all times s < t < u, scalar and vector times',
      'Tests compare at a few parameter values and times; the claim is a differential identity in all of them.',
      [LIN], [('closed-form transition moments', LIN)],
      'Every real parameter value; b > 0, constant model with a < 0 and a > 0.')
dprop('D02', 'SDE drift, dispersion, mean and variance agree with each other',
      'The marginal mean and variance functions solve the moment equations of the drift and dispersion of the same SDE object, the linear noise schedule hits its end values and its integral is its primitive, and the stationary variance of the stationary SDEs is preserved.',
      'all model parameters, all times',
      'Tests sample a few points; an error in one method stays invisible as long as the others are used.',
      [LIN], [('SDE classes', LIN)],
      'Every real parameter value within the stated signs.')
dprop('D03', 'The conditional score is the gradient of the exact transition log-density',
      'For every linear SDE, states and times, the conditional score equals the gradient in the current state of the log-density of the exact transition from the initial state, also when batched.',
      'all parameters, times, states',
      'Tests use one setting.',
      [LIN], [('cond_score_t_0', LIN)],
      'States of two components; every parameter value.')
dprop('D04', 'Forward simulation has the exact path law',
      'Simulated paths have the exact joint Gaussian law of the SDE at the requested times given the initial state, and the memory-saving mode has the exact marginal law at each time, independently across times and components, for scalar or vector times and an explicit or default initial time.',
      'all parameters, increasing times, initial states, all Gaussian draws',
      'Tests compare Monte-Carlo moments for one setting; the claim is about the full covariance of the path for all settings.',
      [LIN], [('scan over exact transitions', LIN), ('marginal mode', LIN)],
      'Paths of 3-4 times, states of 1-4 entries; all parameter values.', technique=GAU, over=('inputs', 'configurations'))
dprop('D05', 'The bridge drift is the Doob transform towards the target',
      'The bridge drift equals the drift plus squared dispersion times the gradient in the state of the log transition density to the target, and the Gaussian bridge pinned at both ends follows it in mean and variance.',
      'all parameters, times before the horizon, states, targets',
      'Tests simulate one bridge and look at its end point.',
      [LIN], [('bridge_drift', LIN)],
      'Constant and linear-schedule SDEs; every parameter value.')
dprop('D06', 'Euler-Maruyama simulates its recursion at the right times',
      'The integrator returns the Euler-Maruyama recursion of the given drift and dispersion: equal sub-steps between consecutive times evaluated at the sub-step starts (also on decreasing grids), fresh Gaussian increments of the right variance, and the path and terminal outputs agree.',
      'all time-dependent affine drifts and dispersions, arbitrary drifts for one step, increasing and decreasing grids, all draws',
      'Tests use autonomous drifts and one increasing grid, where wrong evaluation times do not show.',
      [SIM], [('euler_maruyama', SIM)],
      'Up to 3 steps and 3 sub-steps, two-component states, uninterpreted coefficients.', technique=GAU, over=('inputs', 'configurations'))
dprop('D07', 'The reverse simulator runs the time reversal',
      'The reverse-time simulation uses minus the forward drift plus squared dispersion times the score, all evaluated at terminal time minus current time, with the forward dispersion at that time.',
      'all drifts, scores and dispersions (affine over several steps, arbitrary for one step), all grids and draws',
      'Tests check one stationary example where the time argument does not matter.',
      [SIM], [('reverse_simulator', SIM)],
      'Up to 3 steps or 2 sub-steps, two-component states.', technique=GAU)
dprop('D08', 'Bridge and discrete-time simulators realise their recursions',
      'The bridge simulator starts at the initial value, follows the Euler recursion of the bridge drift towards the target at the final time, and ends exactly in the target when asked to; the discrete-time simulator realises X(k+1) = f(X(k), t(k+1), t(k)) + q w with fresh standard normals.',
      'all SDE parameters, states, targets, grids, draws',
      'Tests only look at the end point of one bridge; the discrete-time simulator is untested.',
      [SIM, LIN], [('doob_bridge_simulator', SIM), ('discrete_time_simulator', SIM)],
      'Up to 3 steps or 2 sub-steps.', technique=GAU, over=('inputs', 'configurations'))
dprop('D09', 'Training losses are the denoising and IPF objectives',
      'Given the training times, the expectation of each training loss over its simulated paths is the stated weighted denoising score-matching or transition-matching objective of the network; random training times are independent uniforms over the horizon with the end time always included; the memory-saving variant has the same objective at its own times.',
      'all networks affine in the state, all SDE parameters, horizons, initial samples, parameters; all draws',
      'No test evaluates a loss value: a wrong weighting or misaligned time still trains.',
      [LIN], [('make_linear_sde_law_loss', LIN), ('make_ou_score_matching_loss', LIN)],
      '1-3 samples, 1-3 times, states of 1-2 entries, networks affine in the state.', technique=GAU, over=('inputs', 'configurations'))
dprop('D10', 'IPF losses have the mean-matching objective and their variants agree',
      'The expectation of each iterative-proportional-fitting loss is the mean-matching objective of its simulation process at the right times on increasing and decreasing grids, and the vectorised continuous loss equals the looped one draw by draw for arbitrary networks.',
      'all drifts and networks affine in the state (arbitrary ones for the agreement), parameters, grids, samples, draws',
      'No test evaluates these losses.',
      [DSB], [('ipf_loss_cont / ipf_loss_cont_v', DSB), ('ipf_loss_disc', DSB)],
      'Up to 2 steps, 2 samples, states of 2 entries.', technique=GAU)
dprop('D11', 'The Gaussian Schroedinger bridge solves the bridge problem',
      'The closed-form bridge interpolates its two Gaussian end points, its marginal mean and covariance follow its drift with the reference diffusion, and its drift is a gradient satisfying the equation that singles out the bridge over Brownian motion.',
      'all means, covariances, diffusion coefficients and times in (0, 1)',
      'Tests check the end points of one example by simulation; endpoint-preserving but non-optimal drifts pass.',
      [LIN, UT], [('make_gaussian_bw_sb', LIN), ('sqrtm', UT)],
      'Dimensions 1 and 2; in dimension 2 all eigenvalues symbolic with diagonal or fixed rational eigenvector rotations (symbolic rotations in thorough).')
dprop('D12', 'Gaussian utilities match their definitions',
      'The Gaussian KL divergence, Bures-Wasserstein distance, symmetric matrix square root and linear time-invariant discretisation equal their mathematical definitions.',
      'all means, positive definite covariances, drift and diffusion matrices',
      'Tests check single numeric examples or a simulation; the KL divergence has no test.',
      [UT], [('kl', UT), ('bures_dist', UT), ('sqrtm', UT), ('discretise_lti_sde', UT)],
      'Dimensions 1-3; triangular drift matrices for the discretisation.')

DB, IMG, BAY, NB, NU = 'fbs/data/base.py', 'fbs/data/images.py', 'fbs/data/bayesian.py', 'fbs/nn/base.py', 'fbs/nn/utils.py'
ZIX = ('z3 over the outputs of a symbolic execution of the traced jaxpr in which random integers, permutations and pixel values are '
       'solver variables (if-then-else terms for gathers, scatters and sorts)')


def nprop(*a, technique=ZIX, **k):
    prop(*a, technique=technique, **k)


nprop('N01', 'Masks split the pixels into observed and unobserved parts',
      'For every draw, the observed and unobserved pixel indices of an inpainting or super-resolution mask partition the pixels of the '
      'image; super-resolution observes exactly one pixel in each block (the middle one when not random) and can observe any of them; inpainting removes one square inside the image at a shift that can be any of the offered ones.',
      'all random shifts; image sizes, rates and squares listed in the evidence',
      'A partition claim over every joint draw of all the block shifts; the tests draw a few masks.',
      [IMG], [('_gen_supr_mask', IMG), ('_gen_inpaint_mask', IMG)],
      'Images up to 6x6 (all draws, square and rectangular images).', over=('inputs', 'configurations'))
nprop('N02', 'Unpacking and concatenating images are mutually inverse',
      'For every image and mask, concat restores the image that unpack split, unpack returns the two parts given to concat, and each part holds '
      'exactly the pixels of its mask in mask order, for any batch shape.',
      'all images, parts and mask draws; single images and batches',
      'Must hold for every mask that can be drawn; a pixel misplaced for a rare shift is not seen by a few draws.',
      [IMG], [('unpack / concat', IMG)],
      'Images up to 6x4 with 1-3 channels, batches up to 2x2.', over=('inputs', 'configurations'))
nprop('N03', 'Sampled and enumerated pairs belong together',
      'Every sampled image is an item of the data set and the observation returned with it is computed from that very image with the returned mask '
      'or its own corruption, in the same order for whole batches.',
      'all data sets, permutations and draws',
      'A pairing error only shows for particular draws and data; the tests check shapes.',
      [IMG], [('sampler', IMG), ('enumerate_subset', IMG)],
      'Data sets of 2-4 small symbolic images.')
nprop('N04', 'An epoch visits every item of the truncated data set exactly once',
      'For every permutation drawn, the batches of one enumeration are disjoint, of the requested size, together contain each of the first '
      'batch_size * floor(n / batch_size) items exactly once, and return exactly the rows of those items; a drawn subset consists of distinct items.',
      'all permutations and data sets; sizes listed in the evidence',
      'A statement about every permutation.',
      [DB], [('init_enumeration / enumerate_subset / draw_subset', DB)],
      'Up to 7 items, batch sizes 1-3 (thorough: more).', over=('inputs', 'configurations'))
nprop('N05', 'Standardised data have mean zero and unit variance',
      'For every data set without constant columns, standardising gives columns of mean zero and variance one as a positive affine map of the '
      'data, invariant to shifts and rescalings; reshaping turns scalars and vectors into column matrices and leaves the rest; image data are left unchanged.',
      'all data sets', 'An identity over all data sets; untested.',
      [DB, IMG], [('standardise / reshape', DB)],
      'Up to 4 rows and 2 columns.', technique=IDT)
nprop('N06', 'Corruption operators do what their task says',
      'Inpainting blanks exactly one square of the image and keeps all other pixels; super-resolution gives an image constant on blocks of the '
      'chosen factor with a pixel of each block; normalisation clips to [0, 1] leaving values inside unchanged, or maps each channel affinely onto [0, 1].',
      'all images, all draws', 'Must hold for every image and every placement drawn.',
      [IMG], [('paint / downsample / normalise', IMG)],
      'Images up to 8x8; division-free form of the affine normalisation.')
nprop('N07', 'The Crescent model is consistent',
      'The sampled pairs follow the stated prior and likelihood, the log-densities and the score are those of the same model, and the mesh posterior is the '
      'normalised product of prior and likelihood for any rectangular mesh.',
      'all psi, states, observations, meshes and draws', 'Tests compare one histogram; the relation between sampler, densities and posterior is an identity.',
      [BAY], [('sampler / densities / posterior', BAY)],
      'psi symbolic, three values of xi, meshes with 2-3 nodes a side and symbolic spacing.', technique=IDT + '; laws from symbolic Gaussian draws')
nprop('N08', 'The time embedding is the stated bank of sines and cosines',
      'For every time and even dimension, the embedding consists of the sines then the cosines of the time at geometrically spaced frequencies from '
      'one to the inverse of the maximal period; odd dimensions are rejected.',
      'all times up to 1e5 in size; dimensions listed', 'A claim over all times; untested.',
      [NB], [('sinusoidal_embedding', NB)],
      'Dimensions 2-128, agreement up to 1e-7 in the arguments.', technique='z3 (linear arithmetic) over the arguments of the sines in the symbolically executed jaxpr')
nprop('N09', 'Pixel shuffle is a block-wise bijection',
      'Pixel shuffling moves each group of channels to the sub-pixels of its own spatial block without losing, duplicating or mixing values across '
      'blocks or batch items, in the same arrangement for every block.',
      'all inputs', 'Untested; a permutation that mixes blocks still trains.',
      [NU], [('PixelShuffle', NU)],
      'Scales 1-3, up to 2x2 blocks, batches of 1-2.')
nprop('N10', 'Wrapped networks evaluate the network at the given flat parameters',
      'For every flat parameter vector and input, the forward pass made by the wrappers equals the network with those parameters in flattening order '
      'applied to exactly that input and time (scaled when requested), and flattening and unflattening parameters are mutually inverse.',
      'all parameter vectors, inputs, times', 'Tests check shapes of one network.',
      [NB, NU], [('make_st_nn', NB), ('make_nn_with_time', NU)],
      'Two-layer polynomial networks with up to 20 symbolic parameters.', technique=IDT)
nprop('N11', 'A training step is one optimiser step and the average follows its schedule',
      'The optimiser kernel returns the optimiser update of the loss gradient at the old parameter with the updated state and the loss at the old '
      'parameter; the moving-average kernel copies the parameter before its start count, mixes with the stated decay at counts divisible by the given period, and otherwise leaves the average.',
      'all parameters, data, learning rates and counters', 'Untested; the schedule has several regimes.',
      [NU], [('make_optax_kernel', NU)],
      'Two parameters, cubic loss, three optimisers; all integer counters.', technique=IDT + '; path-forking execution over symbolic integers for the schedule', over=('inputs', 'histories'))
nprop('N12', 'Networks treat every image of a batch alike and by itself',
      'For every parameter, image and time, the value of a network (UNet with either upsampling, CrescentMLP, GMSBMLP) for one image of a batch is its value for that image '
      'evaluated alone, whether batched, mapped, or with one time for all, and times enter in units of the network\'s dt; weight-standardised convolutions '
      'convolve with the kernel standardised per output channel, and attention blocks commute with permutations of the pixels.',
      'all parameters, images and times', 'Training evaluates batches and sampling single images; no test compares the two.',
      ['fbs/nn/unet.py', 'fbs/nn/models.py'], [('UNet', 'fbs/nn/unet.py'), ('CrescentMLP', 'fbs/nn/models.py')],
      'UNet of width 2 with one or two resolutions and one attention head of width 2, images of 2x2 and 4x4 pixels, batches of two; transcendental '
      'functions uninterpreted.', technique='symbolic execution of the jaxpr of the real flax modules over z3 terms; both evaluations are shared '
      'solver terms or proved equal by z3')
nprop('N13', 'Loaded image sets contain the file unchanged, split without overlap',
      'For every key, each item of a loaded image set is one whole image of the file, pixel by pixel in place and unchanged; different items are '
      'different images in an order drawn from the key, the announced size and image shape are those of the data, and the training and test parts '
      'of one file with the same key never share an image.',
      'all file contents, permutations, items and pixels, at the real file sizes',
      'A leak between training and test images or a pixel permutation depends on key and data and shows in no test: the files are not even available.',
      [IMG], [('MNIST / CIFAR10 / CelebAHQ / MNISTRestore / CelebAHQRestore', IMG)],
      'Documented file sizes (60000/10000, 50000/10000, 30000 rows); CelebA-HQ at resolutions 8 and 64.',
      technique='symbolic execution of the jaxpr over lazily indexed solver arrays + z3 (uninterpreted permutation with inverse)')


# ---------------------------------------------------------------- experiments
GIBBS, FILT, PM, TW, CS = (f'experiments/toy/gp_{n}.py' for n in ('gibbs', 'filter', 'pmcmc', 'twisted', 'csgm'))
SBF, SBG = 'experiments/sb/filter.py', 'experiments/sb/gibbs.py'
XTECH = ('symbolic execution of the script: the jaxpr of what it hands to the samplers (recorded callbacks and arrays) and stores, '
         'decided against the exact Gaussian model by z3')
prop('X01', 'The toy samplers simulate the exact time reversal of the noised model',
     'In the Gaussian-process toy experiments (Gibbs, filter, particle MCMC) the transition sampler, the transition density and the likelihood '
     'density given to the samplers are those of one Euler step of the exact time reversal of the noised joint of function values and '
     'observations, on a uniform time grid, for both noise options.',
     'all particle states, observation values and reverse times',
     'The scripts are run by no test, and a wrong block, time direction or step size still produces plausible samples.',
     [GIBBS, FILT, PM], [('reverse drift, transition and likelihood callbacks', GIBBS)],
     'Dimensions 1 and 2, two particles, three steps; both SDE options.', technique=XTECH)
prop('X02', 'The toy samplers start from the exact conditional reference and noise correctly',
     'In the Gaussian-process toy experiments the reference sampler draws from the exact conditional law of the terminal hidden part given '
     'the terminal observation part of the noised model, and the observation paths and noising samplers have the law of the forward noising process started at the data.',
     'all terminal observation values and starting points, all draws',
     'These are laws (means and full covariances) of random outputs of scripts that no test runs.',
     [GIBBS, FILT, PM], [('reference sampler and forward sampling', GIBBS)],
     'Dimensions 1 and 2, two reference draws, paths of two steps; both SDE options.', technique=XTECH)
prop('X03', 'The twisted and conditional-score toy samplers use the model they state',
     'In the twisted toy experiment the transition, twisting and proposal densities are those of the exact reverse step, the one-step '
     'denoising estimate with the observation noise, and the reverse step tilted by the twisting gradient, the proposal sampler matches its density and the '
     'initial particles follow the noised prior; in the conditional-score experiment the drift is that of the exact reversal conditioned on the observation and the start follows the noised posterior.',
     'all states, observations and reverse times, all draws',
     'Proposal sampler, proposal density and twisting function must agree for every state and time; no test runs these scripts.',
     [TW, CS], [('twisting and proposal callbacks', TW), ('conditional score drift', CS)],
     'Dimensions 1 and 2, two particles, three steps; both SDE options.', technique=XTECH)
prop('X04', 'The Schroedinger-bridge scripts reverse the bridge they construct',
     'In the Gaussian Schroedinger-bridge experiments the bridge is built between the joint of function values and observations and the random '
     'reference, the samplers get one Euler step of its time reversal, the conditional reference law and forward paths of the bridge started at the requested data.',
     'all bridges (marginal means, covariances and drifts), states, observations and reverse times, all draws',
     'Needs an arbitrary bridge and full laws; no test runs these scripts.',
     [SBF, SBG], [('reverse process of the bridge', SBF), ('Gibbs on the bridge', SBG)],
     'Dimensions 1 and 2, two particles, three steps; arbitrary bridge functions.', technique=XTECH)
IM = 'experiments/imgs/'
prop('X05', 'The image restoration scripts simulate the reversal of their own noising',
     'For any trained network, the image experiments give their samplers the reverse Euler step of the whole image with the network score at the '
     'remaining time, split into missing and observed pixels; the noising, guided and conditional-score samplers match the same model; chains continue '
     'from their last state and the stored images keep the observed pixels and put the sampled ones in their place.',
     'all networks (arbitrary coefficient functions), images, states and reverse times, all draws; methods and options of the scripts',
     'The scripts need trained checkpoints and data files, so nothing runs them; a swapped part, stale time or wrong parameter set still yields images.',
     [IM + 'inpainting.py', IM + 'supr.py', IM + 'inpainting_twisted.py', IM + 'supr_twisted.py', IM + 'inpainting_csgm.py', IM + 'supr_csgm.py',
      'experiments/sb_imgs/supr.py'],
     [('callbacks given to the samplers', IM + 'inpainting.py'), ('twisting', IM + 'inpainting_twisted.py'),
      ('conditional-score sampler', IM + 'inpainting_csgm.py'), ('bridge on images', 'experiments/sb_imgs/supr.py')],
     'Images of 2x2 pixels, two particles, up to three steps, networks quadratic (laws: affine) in the image.', technique=XTECH,
     over=('inputs', 'configurations'))
prop('X06', 'The experiments advance their chains and store what they report',
     'The toy and bridge experiments store the exact posterior mean and covariance of the data set used, store as sample i of a chain the state after its '
     'i-th step, continue every chain from its own last state, start it consistently with one run of the initial filter, store properly weighted particles and pass their command-line options on.',
     'all random draws, outcomes of the samplers and data sets',
     'Mixed-up chains or a stale state still give plausible files, and no test runs these scripts.',
     [GIBBS, FILT, PM, TW, CS, SBF, SBG], [('sampling loop and stored results', GIBBS)],
     'Two samples per run, one or two chains, dimensions 1 and 2.', technique=XTECH, over=('inputs', 'histories'))
prop('X07', 'The training scripts train what the experiments load',
     'Training takes one gradient step per batch, every batch of each epoch\'s own permutation once, carries parameters, optimiser state and moving '
     'average from step to step, minimises the stated loss for the SDE, network and options given (bridge: alternating halves, data noised forward '
     'with the reference first, N(0, I) samples simulated backward, ordered random times on (1e-5, T)), uses fresh randomness at every step, and writes '
     'the current parameters to the checkpoints the test scripts read, for the same SDE, horizon and network settings.',
     'all values returned by datasets, networks, losses and optimisers; the options of the scripts',
     'Nothing runs the training; stale parameters, a repeated batch or a wrong direction still lower some loss.',
     [IM + 'train.py', 'experiments/sb_imgs/train.py'],
     [('training loop', IM + 'train.py'), ('bridge iterations', 'experiments/sb_imgs/train.py')],
     'Two batches per epoch; 1, 2 and 100 epochs; up to three bridge iterations; 2 and 4 training times.', technique=XTECH,
     over=('inputs', 'histories', 'configurations'))
TB = 'experiments/tabulators/'
prop('X08', 'Tables and figures report the stored results they name',
     'Whatever the result files hold, the toy table prints for each method the mean and standard deviation over runs of the KL, Bures, mean and variance '
     'errors of the sample moments (averaged over chains) against the stored posterior; the bridge and autocorrelation figures draw each labelled curve from its '
     'own method, particle number and runs; the image tables score each clipped restored image against its own true image; and the files read are those the '
     'experiment scripts write, with the entries and layout expected.',
     'all contents of the result files; the methods, runs and images tabulated',
     'A wrong axis, file or label still prints a plausible table, and no test runs these scripts.',
     [TB + 'tabulate_toy.py', TB + 'tabulate_imgs.py', TB + 'plot_sb.py', TB + 'plot_autocorrs_toy.py'],
     [('toy table', TB + 'tabulate_toy.py'), ('image tables', TB + 'tabulate_imgs.py'), ('bridge figure', TB + 'plot_sb.py'),
      ('autocorrelation figure', TB + 'plot_autocorrs_toy.py')],
     'Two runs per method (two images with two samples), three samples of dimension 1 and 2, two chains, two lags.', technique=XTECH,
     over=('inputs', 'configurations'))
