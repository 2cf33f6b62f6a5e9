#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'optax/_src/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, note=''):
  P.append((dict(
      id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=[S + f for f in files],
                   mechanism=[dict(name=n, where=S + w) for n, w in mech],
                   observe_at=observe or ['return values of the public functions'],
                   hook_needed=None)), note))


prop('C01', 'init and update are pure: runs repeat, interleave and resume exactly',
     'Initialising and updating a gradient transformation depends on nothing but the arguments and the configuration it was built with, and leaves every argument untouched. Repeating a call, interleaving several models or threads through one transformation, and continuing from a state that was serialised and restored in another process therefore give bit-identical updates and states. The same holds for the library\'s functions on arrays and parameters.',
     ['histories', 'crash_points', 'schedules'], 'every transformation, every order of calls, every cut and resume point, every thread interleaving',
     'Tests call each update on one linear history, once; aliasing between state and arguments, hidden global state and dependence on call order need other histories to show.',
     ['base.py', 'transform.py', 'wrappers.py', 'lookahead.py', 'clipping.py', 'privacy.py', 'linear_algebra.py', 'schedule.py'],
     [('state is returned, never stored', 'base.py GradientTransformation'), ('explicit PRNG keys in the state', 'transform.py add_noise'), ('hyperparameter state rebuilt per update', 'schedule.py inject_hyperparams')])
prop('C02', 'Eager, compiled, looped and batched execution agree',
     'Running any transformation, schedule, loss or numerical routine eagerly, compiled, inside one compiled loop, or batched over independent models gives the same values up to rounding, and leaks no traced value.',
     ['programs', 'histories', 'inputs'], 'every transformation and function, every tree of parameters and gradient history, in four execution modes',
     'Tests run mostly one mode per function (chex variants with and without jit on fixed data); loops over many steps and batching are not run at all.',
     ['transform.py', 'wrappers.py', 'lookahead.py', 'schedule.py', 'loss.py', 'linear_algebra.py'],
     [('branching through jnp.where / lax.cond', 'wrappers.py'), ('schedules written with array operations', 'schedule.py')])
prop('C03', 'Updates and states keep structure, shape and dtype',
     'For gradients with the structure and dtypes of the parameters, every transformation returns updates with the same structure, shapes and dtypes as its input (per-example aggregation drops the batch axis) and a state of exactly the structure, shapes and dtypes of the initial state, so that training loops can be compiled. This holds for float16, bfloat16, float32, float64 and mixed trees, with 64-bit types enabled or not, and for scalar and empty leaves.',
     ['inputs', 'configurations'], 'every transformation, tree, dtype assignment and global precision setting',
     'Tests use float32 trees of one or two shapes; promotion depends on combinations of leaf dtype, hyperparameter and global flag.',
     ['transform.py', 'wrappers.py', 'clipping.py', 'privacy.py', 'schedule.py', 'utils.py'],
     [('zeros_like state', 'transform.py'), ('casts of accumulators', 'utils.py cast_tree'), ('casts of hyperparameters', 'schedule.py inject_hyperparams')])
prop('C04', 'Averaging preconditioners follow their published recurrences',
     'Adam, AdaBelief, RAdam, Yogi, RMS and standard-deviation scaling emit, at every step of every gradient history, the value their published recurrence gives for the hyperparameters they were built with (decay rates, all epsilons, bias corrections, initial accumulator values, the rectification threshold), and hold the corresponding moments in their state.',
     ['histories', 'inputs', 'configurations'], 'gradient histories of any length and style, hyperparameters over their whole range, parameter trees of any shape',
     'Tests check a few steps on fixed two-leaf inputs or only convergence on toy problems; late steps, sparse gradients, non-default epsilons and thresholds are never compared with the recurrence.',
     ['transform.py'], [('moment updates and bias corrections', 'transform.py _update_moment, _bias_correction'), ('update rules', 'transform.py scale_by_adam ... scale_by_radam')])
prop('C05', 'Adagrad and SM3 accumulators follow their rules and never forget',
     'Root-sum-of-squares scaling divides by the root of the initial accumulator plus the sum of all squared gradients plus epsilon, and leaves an element untouched while its sum is zero. SM3 keeps one running maximum per index of every axis of a parameter of any rank, updates it with the minimum over axes plus the square, and so always dominates the exact sum of squares of every element; no accumulator ever decreases.',
     ['histories', 'inputs'], 'gradient histories, parameter shapes of rank 0 to 5 with axes of length 0 and 1, momentum and accumulator values',
     'Tests run a single configuration for convergence only; the covers of SM3 and the zero case need specific shapes and sparse histories.',
     ['transform.py'], [('accumulators per axis', 'transform.py scale_by_sm3'), ('zero-safe root', 'transform.py scale_by_rss')])
prop('C06', 'Momentum traces and moving averages are exact functions of history',
     'After any history the momentum trace equals the decayed sum of all gradients seen (plus one more look-ahead term with Nesterov), and the moving average equals the decayed weighted mean of all inputs, divided by one minus the decay to the power of the number of inputs when debiasing; a requested accumulator dtype is what is stored, and the values emitted still follow the formula to that precision.',
     ['histories', 'configurations'], 'histories of any length, decays in [0, 1), debiasing and Nesterov on and off, accumulator dtypes',
     'Tests check two or three steps with one decay.',
     ['transform.py'], [('trace recursion', 'transform.py trace'), ('bias correction by count', 'transform.py ema')])
prop('C07', 'Scaling, decay, trust ratio and centralisation compute their formulas',
     'Scaling multiplies every element, decoupled weight decay adds the decay times the current parameter, identity changes nothing. The trust ratio rescales each leaf to the norm of its parameter, with both norms floored at the given minimum and ratio one when either is zero; centralisation subtracts from every array of two or more dimensions its mean over all axes but the first and leaves other arrays alone.',
     ['inputs', 'configurations'], 'trees of all ranks, zero, tiny and huge norms, parameters and gradients',
     'Tests sample one fixed tree; zero norms, floors and ranks above two are not reached.',
     ['transform.py', 'base.py', 'numerics.py'], [('norm floor', 'numerics.py safe_norm'), ('ratio', 'transform.py scale_by_trust_ratio'), ('mean over trailing axes', 'transform.py _subtract_mean')])
prop('C08', 'Every named optimiser equals its published composition',
     'Each ready-made optimiser (SGD with and without (Nesterov) momentum, Adam, AdamW, AdaBelief, Adagrad, Fromage, LAMB, noisy SGD, RAdam, RMSProp and its centred and momentum variants, SM3, Yogi, DP-SGD) produces at every step the update of its published algorithm for all of its arguments, including order of decay, preconditioning, trust ratio and learning rate, whether the learning rate is a number or a schedule.',
     ['histories', 'configurations'], 'every optimiser, all its arguments, constant and scheduled learning rates, any history',
     'Tests check that optimisers reach the optimum of two toy problems with one setting, which wrong compositions also do.',
     ['alias.py', 'transform.py'], [('compositions', 'alias.py'), ('learning rate sign and schedule', 'alias.py _scale_by_learning_rate')])
prop('C09', 'A parameter\'s updates depend only on what they should',
     'Element-wise rules update each coordinate from that coordinate\'s gradient history and value alone, and leaf-wise rules (SM3, trust ratios, adaptive clipping, centralisation) each array from its own: changing, even to NaN, any other coordinate or array changes nothing. No transformation sees the container: lists, tuples, dictionaries and nestings holding the same arrays in the same order are updated alike, and so are element-wise rules under reshaping and permutation.',
     ['inputs', 'histories'], 'pairs of runs that differ in one coordinate, one leaf, the container or the shape',
     'A non-interference property relates two runs; tests look at one.',
     ['transform.py', 'wrappers.py', 'combine.py', 'clipping.py'], [('tree_map over leaves', 'transform.py')])
prop('C10', 'Chaining composes transformations in order with private states',
     'A chain feeds the gradients to its members in the order given, each receiving its predecessor\'s output, its own state and the caller\'s parameters, exactly once per call. Any bracketing of nested chains, and members that do nothing, give the same updates; two occurrences of one transformation keep separate states.',
     ['programs', 'histories'], 'chains of any length and nesting of any transformations',
     'Tests chain one fixed list of three.',
     ['combine.py'], [('zip over states', 'combine.py chain')])
prop('C11', 'Schedules are read once per applied step, at the step\'s number',
     'Wherever a schedule is accepted in place of a learning rate or step size, the t-th applied update (counting from zero) equals the unit-rate update times the schedule\'s value at t, for arbitrary schedule functions, also in chains, after restarts from a saved state and at large step counts. Steps that a wrapper skips or rejects do not advance the schedule.',
     ['histories', 'programs'], 'arbitrary schedules, every optimiser, wrappers that skip steps, any step number',
     'Tests use constant schedules or compare with the same code; off-by-one and double counting need distinguishable values per step.',
     ['transform.py', 'alias.py', 'wrappers.py'], [('step counter', 'transform.py scale_by_schedule'), ('inner state frozen on skip', 'wrappers.py')])
prop('C12', 'Elementary schedules equal their documented closed forms',
     'Constant, linear, polynomial, exponential (smooth and staircase, with bound), cosine and piecewise constant schedules return their documented formula at every count, for python, array and traced counts up to the integer maximum: the initial value until the transition begins, the exact end value from its end on, and staying between the two for ever. Staircases and piecewise constants change at exactly the documented counts.',
     ['inputs', 'configurations'], 'all arguments and all counts, including boundaries, zero lengths and the largest integers, compiled or not',
     'Tests evaluate a few settings along short ranges.',
     ['schedule.py'], [('clamped count', 'schedule.py polynomial_schedule'), ('integer division', 'schedule.py exponential_decay'), ('indicator products', 'schedule.py piecewise_constant_schedule')])
prop('C13', 'Composed schedules join and interpolate their pieces as documented',
     'A joined schedule returns at each count the value of the part in charge at the number of steps since that part\'s boundary (boundary included), warm-up schedules rise linearly to the peak and then decay as their documentation says, restarting schedules begin each cycle at its boundary. Interpolated and one-cycle schedules pass exactly through the documented values at their boundaries, follow the straight or cosine curve between them and hold the last value; coinciding boundaries are harmless.',
     ['inputs', 'configurations'], 'all parts, boundaries, percentages and counts including degenerate intervals',
     'Tests check a few counts of one or two settings.',
     ['schedule.py'], [('where over boundaries', 'schedule.py join_schedules'), ('interval lookup', 'schedule.py piecewise_interpolate_schedule')])
prop('C14', 'Clipping bounds what it should and leaves the rest alone',
     'Element-wise clipping limits every element to plus and minus the bound; global-norm clipping passes trees whose norm is below the bound unchanged and rescales all others by one common factor onto the bound. Adaptive clipping bounds the norm of each unit\'s update by the given fraction of the parameter unit\'s norm (floored at epsilon), with units per output for matrices and convolution kernels and per array for vectors and scalars, and leaves smaller ones unchanged.',
     ['inputs'], 'gradients and parameters of every supported rank and any magnitude',
     'Tests check one tree per function.',
     ['clipping.py', 'linear_algebra.py'], [('trigger and rescale', 'clipping.py clip_by_global_norm'), ('unit norms', 'clipping.py unitwise_norm')])
prop('C15', 'Non-finite gradients are rejected and counted as documented',
     'With the finite guard, a tree of gradients containing any NaN or infinity yields zero updates and leaves the inner state untouched, unless it is preceded by at least the tolerated number of consecutive ones, in which case it is let through. The state reports whether the last gradient was finite, the consecutive run (reset by a finite gradient) and the total, and finite gradients are always applied as by the inner transformation alone.',
     ['fault_sequences', 'histories'], 'every sequence of finite and non-finite gradients, position of the bad element, tolerance and inner transformation',
     'Tests inject one NaN and one run of errors.',
     ['wrappers.py'], [('state machine', 'wrappers.py apply_if_finite')])
prop('C16', 'Gradient accumulation steps once with the mean or the sum',
     'With accumulation over k mini-steps, the inner transformation runs exactly once per k calls, on the mean (or the sum, as configured) of the k gradients and with the current parameters, its update is returned on that call, and zero updates are returned on all others with the inner state unchanged. When k comes from a schedule it is read at the number of completed optimiser steps, and counters and the has-updated flag always describe the position in the cycle.',
     ['histories', 'configurations'], 'any accumulation length or schedule of lengths, inner transformation and gradient history, stopped and resumed anywhere',
     'Tests run one constant and one scheduled length with an inner transformation that ignores parameters.',
     ['wrappers.py'], [('running mean, branch at the last mini-step', 'wrappers.py MultiSteps.update')])
prop('C17', 'Applying every k-th step conserves the sum of the updates',
     'The every-k transformation returns at each k-th call the sum of the last k inputs and zero at all other calls, so that the total displacement equals the sum of all inputs at each multiple of k; nothing of a window, even non-finite values, reaches a later one.',
     ['histories'], 'any period, history and dtype',
     'Tests run k=4 on one constant history.',
     ['transform.py'], [('accumulate, emit and reset', 'transform.py apply_every')])
prop('C18', 'Masking transforms exactly the selected parameters',
     'A masked transformation hands the inner transformation exactly the selected leaves (gradients and parameters alike) and returns its outputs for them, while all other leaves pass through bit-identical and occupy no state. Masks may be trees of booleans, prefixes of the tree, or functions of it, applied to whatever tree is passed in.',
     ['inputs', 'programs'], 'all trees, masks (whole, prefix, callable, all or none) and inner transformations, nested too',
     'Tests use fixed masks over fixed trees.',
     ['wrappers.py'], [('placeholder for unselected leaves', 'wrappers.py masked')])
prop('C19', 'Flattening shows one vector to the inner transformation and no more',
     'The flattening wrapper calls the inner transformation with one vector holding all elements of all leaves in order, for initialisation, gradients and parameters alike, and returns its output in the original structure, shapes and dtypes. Element-wise inner transformations therefore give the same updates as without it, and global-norm ones too.',
     ['inputs', 'programs'], 'all trees of one dtype and all inner transformations, with and without parameters',
     'Tests compare one optimiser on one tree.',
     ['wrappers.py'], [('ravel and split', 'wrappers.py flatten')])
prop('C20', 'Conditional updates run the inner transformation only when told to',
     'The conditional wrapper asks its predicate once per call with the number of calls made before, runs the inner transformation exactly when it says so, and otherwise returns the gradients unchanged and the inner state untouched.',
     ['histories', 'programs'], 'every predicate over step numbers, inner transformation and history',
     'Tests use one threshold predicate.',
     ['wrappers.py'], [('branch on the predicate', 'wrappers.py maybe_update')])
prop('C21', 'Lookahead equals its two nested loops',
     'With lookahead, the fast parameters take steps of the fast optimiser (which sees the fast parameters), and at every synchronisation the slow parameters move by the slow step size towards the fast ones and the fast ones are reset to them; between synchronisations the slow parameters do not move. The fast optimiser\'s state is reset at synchronisations exactly when requested, and values of one copy that are non-finite never leak into an update that should not use them.',
     ['histories', 'configurations'], 'any fast optimiser, period, step size, reset flag and gradient history',
     'Tests run one optimiser with period two on a toy problem.',
     ['lookahead.py'], [('sync flag and selects', 'lookahead.py _lookahead_update')])
prop('C22', 'Injected hyperparameters are the ones in use, and the ones exposed',
     'With injected hyperparameters, every update runs the inner transformation with, for each scheduled hyperparameter, the schedule\'s value at that update\'s number (initialisation being number zero), and for each constant one the value currently in the state, which callers may change between updates. The state always exposes exactly the numeric values just used and the count; arguments declared static, booleans and non-numeric ones are passed through unchanged.',
     ['histories', 'configurations'], 'any factory, split of its arguments into scheduled, constant and static, and history of manual overrides',
     'Tests use two factories, one override and linear schedules.',
     ['schedule.py'], [('argument classification', 'schedule.py inject_hyperparams'), ('hyperparameters in the state', 'schedule.py InjectHyperparamsState')])
prop('C23', 'Private aggregation bounds every example\'s influence',
     'Differentially private aggregation clips each example\'s gradient to the clipping norm, measured jointly over all leaves of the tree, and returns the batch mean of the clipped gradients plus noise: with equal noise, replacing one example moves the whole result by at most twice the clipping norm over the batch size. Examples within the bound are not changed, and the DP-SGD optimiser is this aggregate followed by momentum and learning rate.',
     ['inputs'], 'all batches, pairs of neighbouring batches, magnitudes, shapes and clipping norms',
     'Tests check the clipped mean of one batch.',
     ['privacy.py', 'linear_algebra.py', 'alias.py'], [('per-example norms and divisors', 'privacy.py differentially_private_aggregate')])
prop('C24', 'Injected noise is calibrated, fresh and reproducible',
     'Gradient noise is Gaussian with mean zero and variance eta/(1+t)^gamma at step t, and private aggregation adds Gaussian noise of standard deviation clipping norm times multiplier over batch size; it is independent across elements, leaves, steps and seeds, and never reused. Equal seeds replay identically.',
     ['histories', 'inputs'], 'any tree, seed, step and noise parameters',
     'Tests check the variance of one call loosely or only that noise is added.',
     ['transform.py', 'privacy.py', 'alias.py'], [('key splitting', 'transform.py add_noise'), ('key splitting', 'privacy.py')])
prop('C25', 'Non-negativity is preserved and NaNs are removed exactly',
     'After the non-negativity constraint, applying the updates leaves no parameter negative, and updates that would not have made one negative pass unchanged. NaN removal replaces exactly the NaN elements by zero, leaves every other element (infinities included) bit-identical, and reports per leaf whether the last gradients held any.',
     ['inputs', 'histories'], 'all parameters, updates and dtypes, positions of NaNs',
     'Tests use one tree with hand-picked values.',
     ['constrain.py', 'update.py'], [('select on the sign of the sum', 'constrain.py keep_params_nonnegative'), ('isnan select', 'constrain.py zero_nans')])
prop('C26', 'Applying, averaging and copying parameters is exact',
     'Applying updates adds them leaf by leaf and keeps the dtype of the parameters; the incremental average returns step size times new plus the rest times old; the periodic copy returns the new parameters exactly at multiples of the period and the old ones otherwise. Inputs are not modified.',
     ['inputs', 'histories'], 'all trees, dtypes of updates, step sizes, periods and counts',
     'Tests sample a single tree and step.',
     ['update.py'], [('cast to the parameter dtype', 'update.py apply_updates')])
prop('C27', 'Losses equal their definitions, with usable gradients',
     'The squared, Huber, sigmoid and softmax cross-entropy, cosine similarity and distance losses and label smoothing equal their documented formulas for all finite inputs, elementwise or over the last axis, with any batch shape; extreme logits give finite values and finite, correct gradients, also at ties, kinks and zeros.',
     ['inputs'], 'all finite predictions, targets, deltas, smoothing factors and epsilons, in both precisions',
     'Tests compare a handful of values.',
     ['loss.py'], [('log-sigmoid and log-softmax forms', 'loss.py'), ('clamped quadratic', 'loss.py huber_loss'), ('safe norm', 'loss.py cosine_similarity')])
prop('C28', 'Second-order quantities agree with the full matrices',
     'The Hessian-vector product equals the Hessian of the loss times the vector, the Hessian diagonal equals its diagonal, and the Fisher diagonal the square of the gradient, in the flattened order of the parameters, for any loss, data and tree of parameters.',
     ['inputs', 'programs'], 'all smooth losses, parameter trees, vectors and data',
     'Tests check one small network and one vector.',
     ['second_order.py'], [('forward over reverse', 'second_order.py hvp'), ('one-hot loop', 'second_order.py hessian_diag')])
prop('C29', 'Norms, leading eigenpairs and inverse roots of matrices are right',
     'The global norm is the root of the sum of all squares over all leaves. Power iteration returns the largest eigenvalue and its unit eigenvector of a positive semi-definite matrix within the requested tolerance, and the inverse p-th root satisfies its defining equation for every exponent p, with the documented ridge relative to the largest eigenvalue.',
     ['inputs'], 'all trees; all symmetric positive matrices with separated spectra; every exponent',
     'Tests check one tree, a few matrices and the exponents of one test.',
     ['linear_algebra.py'], [('power iteration', 'linear_algebra.py power_iteration'), ('coupled Newton iteration', 'linear_algebra.py matrix_inverse_pth_root')])
prop('C30', 'Gradient estimators are unbiased',
     'The score-function, pathwise and measure-valued estimators return one jacobian per sample and per parameter whose expectation is the gradient of the expected value of the function, for means and log-scales of Gaussians of any dimension, with and without coupling; the score and measure-valued estimators also for functions that are not differentiable. Each score or pathwise row is the formula of the estimator at its own sample, and the Gaussian\'s samples and densities are those of its parameters.',
     ['inputs', 'programs'], 'all functions, parameters, keys and sample counts',
     'Tests check linear, quadratic and few other functions at loose tolerances from one key.',
     ['stochastic_gradient_estimators.py', 'utils.py'], [('surrogates', 'stochastic_gradient_estimators.py'), ('Weibull/double-sided Maxwell samples', 'stochastic_gradient_estimators.py measure_valued_estimation_*')])
prop('C31', 'Control variates change the variance, not the expectation',
     'The jacobians with a control variate are the function\'s jacobians minus, per parameter, a coefficient times those of the variate, plus the coefficient times the gradient of the variate\'s exact expectation, so that their mean stays the true gradient; the coefficient is one, or, if requested, the variance-minimising one. The Taylor control variate is the second-order expansion at the mean and states its exact expectation; the moving-average baseline is the debiased average of the function\'s means over all steps.',
     ['inputs', 'histories', 'programs'], 'all functions, variates, estimators, keys and histories of states',
     'Tests use a few functions, one step of state and loose tolerances.',
     ['control_variates.py'], [('assembly', 'control_variates.py control_variates_jacobians'), ('coefficients', 'control_variates.py estimate_control_variate_coefficients'), ('variates', 'control_variates.py control_delta_method, moving_avg_baseline')])
prop('C32', 'Step counters saturate at the end of their range',
     'Counters of steps stop at the largest integer instead of wrapping around, in every transformation that counts, so that no bias correction, schedule, noise scale, predicate or accumulation length is ever computed from a negative count and updates stay finite arbitrarily late in training.',
     ['histories'], 'every transformation at, before and past the end of the counter\'s range',
     'No test reaches 2^31 steps; only the increment function is tested at the maximum.',
     ['numerics.py', 'transform.py', 'wrappers.py', 'schedule.py'], [('saturating increment', 'numerics.py safe_int32_increment, safe_increment')])
prop('C33', 'Finite training stays finite and differentiable',
     'Finite gradients and parameters whose squares are representable, zeros, denormals and abrupt changes included, give finite updates and states with every transformation. Training runs can be differentiated through: derivatives of the final loss with respect to the learning rate, other hyperparameters and initial parameters equal finite differences, and are finite where gradients or parameters are exactly zero.',
     ['inputs', 'histories', 'programs'], 'all transformations, hostile finite histories, differentiable hyperparameters',
     'Tests use benign gradients; one meta-learning test differentiates one optimiser at one point.',
     ['transform.py', 'numerics.py', 'clipping.py', 'alias.py'], [('epsilon placement', 'transform.py'), ('safe norms', 'numerics.py safe_norm'), ('guarded branches', 'transform.py scale_by_rss, scale_by_trust_ratio')])
prop('C34', 'Misuse fails loudly, never with silently wrong numbers',
     'Transformations that need parameters refuse to update without them, wherever they are nested, and those that do not give the same updates without; chains refuse states of another length, accumulators gradients of another structure. Arguments outside the documented domain (periods, steps, scales, interpolation types, static names, batch axes, ranks, integer or unbroadcastable losses, other distributions) are refused while their valid neighbours are accepted, except where a constant fallback is documented.',
     ['inputs', 'configurations', 'programs'], 'every documented precondition, bare and in compositions, eager and compiled',
     'Tests cover a handful of these errors with one argument each.',
     ['base.py', 'combine.py', 'clipping.py', 'constrain.py', 'lookahead.py', 'schedule.py', 'privacy.py', 'loss.py', 'transform.py', 'stochastic_gradient_estimators.py'],
     [('argument checks', 'schedule.py'), ('missing params', 'transform.py'), ('type and shape assertions', 'loss.py')])

prop('C35', 'Update rules have the symmetries of their formulas',
     'Flipping the signs of coordinates in gradients and parameters flips the updates; rules that are linear in the history of gradients (scaling, traces, averages, schedules, accumulation, centralisation, decay, SGD, and wrappers and Lookahead around them) satisfy superposition over whole runs; measuring gradients or parameters in other units, with thresholds and epsilons in the same units, changes the updates by the power of the units the formula says (none for adaptive rules); norm-based rules commute with rotations; on a constant gradient every step follows its closed form, however long the run.',
     ['histories', 'inputs', 'configurations'], 'every rule with the symmetry, every parameter tree, all unit changes over twelve decades, runs of up to thousands of steps',
     'Tests compare single runs with stored numbers; relations between runs, and units far from one, are not looked at.',
     ['transform.py', 'alias.py', 'wrappers.py', 'clipping.py', 'privacy.py', 'lookahead.py'],
     [('moments', 'transform.py _update_moment'), ('norm ratios', 'transform.py scale_by_trust_ratio'), ('clipping thresholds', 'clipping.py')])
prop('C36', 'Adaptive steps, averages and schedules stay within their bounds',
     'Whatever the gradients were, no coordinate of an adaptive step (Adam, RAdam, RMS, RSS, Adagrad, SM3, clipping) exceeds the bound that follows from its hyperparameters; layer-wise rules (LAMB, Fromage, trust ratio) and clipped or private gradients keep the norm they promise; moving averages, accumulated means, second moments, averaged parameters, Lookahead and smoothed labels stay in the hull of what they average, decoupled decay confines the parameters, and schedules never leave the range of their end points at any count.',
     ['histories', 'inputs', 'configurations'], 'adversarial gradient histories (silence then a spike, the worst case of the bound, twelve decades), all hyperparameters, counts up to the largest integer',
     'Tests use a few benign gradients, far from where the bounds bind.',
     ['transform.py', 'alias.py', 'clipping.py', 'privacy.py', 'wrappers.py', 'update.py', 'schedule.py', 'lookahead.py'],
     [('bias correction', 'transform.py _bias_correction'), ('normalisation', 'transform.py scale_by_rms, scale_by_rss, scale_by_sm3'), ('clamped counts', 'schedule.py')])
prop('C37', 'Every optimiser solves convex problems end to end',
     'A training loop of loss, gradient, transformation and apply_updates, with usual step sizes decayed to zero, reaches the solution of well-conditioned convex problems: the minimiser, with coupled decay the ridge solution, with the non-negativity constraint the constrained one, through every optimiser, clipping rule, accumulation, masking, guard against NaN gradients, flattening, injection and Lookahead, and plain gradient descent never increases the loss. Gaussians fitted with estimated gradients reach the optimum, and the example programs train their models.',
     ['programs', 'histories'], 'every optimiser and wrapper, random convex problems and parameter trees, hundreds of steps',
     'Tests check a few optimisers on one parabola with loose tolerances and none of the wrappers.',
     ['alias.py', 'transform.py', 'wrappers.py', 'schedule.py', 'clipping.py', 'constrain.py', 'lookahead.py', 'loss.py', 'update.py'],
     [('sign of the step', 'alias.py _scale_by_learning_rate'), ('optimisers', 'alias.py'), ('wrappers', 'wrappers.py')])


def main():
  with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, _ in P:
      assert len(p['title']) <= 80, p['title']
      f.write(json.dumps(p) + '\n')
  checks = []
  for p, note in P:
    checks.append(dict(
        property=p['id'],
        quick_cmd=f'/opt/venv/bin/python run_check.py {p["id"]}',
        thorough_cmd=f'/opt/venv/bin/python run_check.py {p["id"]} --tier thorough',
        technique='runtime monitoring: ' + TECH[p['id']],
        level='exploration',
        level_note='Held on the executions the run records in its evidence file (operations, '
                   'distinct observations and event counts), not a proof. Trusts JAX on CPU and '
                   'the float64 models and tolerances of the harness. ' + note))
  m = dict(version=1, setup_cmd='/opt/venv/bin/python run_check.py --smoke',
           checks=checks, not_applicable=[],
           notes='No hooks in /repo: every monitor observes public calls and states. Defects found '
                 'are repaired in fix: commits or listed in KNOWN_FINDINGS.txt. '
                 'tools/gen.py writes this file and properties.jsonl.')
  with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')


TECH = {
    'C01': 'argument snapshots, call replay, interleaving, threads and cross-process resume, compared bit by bit',
    'C02': 'differential monitor over four execution modes, tracer leak checker',
    'C03': 'abstract-value monitor on every update and state',
    'C04': 'online comparison with float64 reference models',
    'C05': 'online comparison with float64 models, monotonicity and domination invariants',
    'C06': 'online comparison with explicit history sums',
    'C07': 'online comparison with float64 formulas and output invariants',
    'C08': 'online comparison with float64 models of the published algorithms',
    'C09': 'non-interference monitor over pairs of runs',
    'C10': 'event log of recording spies against an ordering specification',
    'C11': 'event log of recording and poisoned schedules',
    'C12': 'trace comparison with float64 closed forms, bounds and monotonicity',
    'C13': 'trace comparison with float64 definitions, event log of parts',
    'C14': 'invariants on outputs and float64 models',
    'C15': 'reference state machine over injected fault sequences',
    'C16': 'event model of mini-steps over an instrumented inner transformation',
    'C17': 'conservation monitor over windows',
    'C18': 'event log of a recording inner transformation, pass-through identity',
    'C19': 'event log of a recording inner transformation, differential monitor',
    'C20': 'event log of predicate and inner transformation',
    'C21': 'reference nested-loop machine over an instrumented fast optimiser',
    'C22': 'reference machine of hyperparameter values over histories with overrides',
    'C23': 'sensitivity monitor over neighbouring batches, float64 model',
    'C24': 'statistical monitors of recovered noise, log of draws for reuse',
    'C25': 'invariants on parameters and updates, bitwise pass-through',
    'C26': 'comparison with rounded float64 sums and closed forms',
    'C27': 'comparison of values and gradients with stable float64 formulas',
    'C28': 'comparison with full matrices and finite differences',
    'C29': 'comparison with constructed spectra, residual of the defining equation',
    'C30': 'statistical monitor of estimates, per-sample formula monitor',
    'C31': 'statistical monitors, history models and assembly formula',
    'C32': 'fault injection into counters, log of counts asked for',
    'C33': 'finiteness sanitizer under hostile inputs, finite-difference oracle',
    'C34': 'misuse injection with an acceptance/refusal oracle',
    'C35': 'relational monitor over runs related by a symmetry',
    'C36': 'online bound and hull checkers under adversarial histories',
    'C37': 'end-to-end training runs with an independent solution oracle',
}


def module(pid):
  """RULE, assumptions and scenarios of a property's module."""
  import ast
  with open(os.path.join(HERE, 'mon', 'props', pid.lower() + '.py')) as f:
    tree = ast.parse(f.read())
  meta, scen = {}, []
  for n in tree.body:
    if isinstance(n, ast.Assign) and n.targets[0].id.isupper():
      try:
        meta[n.targets[0].id] = ast.literal_eval(n.value)
      except ValueError:
        pass
    if isinstance(n, ast.FunctionDef):
      for d in n.decorator_list:
        if getattr(getattr(d, 'func', None), 'id', '') == 'scenario':
          kw = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
          t = kw.get('thorough') or 8 * kw.get('quick', 8)
          scen.append(f"`{n.name}` ({kw.get('env', 'x64')}, {kw.get('quick', 8)}/{t})")
  return meta, scen


def design():
  out = ['Per scenario: environment (64-bit types on or off) and the number of '
         'random cases in the quick/thorough tier.', '']
  for p, _ in P:
    meta, scen = module(p['id'])
    out += [f"### {p['id']} {p['title']}", '', p['statement'], '',
            f"*Decided by* {TECH[p['id']]}. {meta['RULE']}", '',
            '*Assumes* ' + ' '.join(meta['ASSUMPTIONS']), '',
            '*Bounds* ' + ', '.join(scen) + '. Inconclusive below '
            f"{meta['MIN_EVALS']} decisions, {meta['MIN_DISTINCT']} distinct observations"
            + ''.join(f', {v} {k}' for k, v in meta.get('MIN_COUNTERS', {}).items()) + '.', '',
            '*Beyond the tests:* ' + p['why_tests_cant'], '']
  path = os.path.join(HERE, 'DESIGN.md')
  with open(path) as f:
    s = f.read()
  a, b = s.index('<!-- properties -->'), s.index('<!-- end -->')
  s = s[:a] + '<!-- properties -->\n' + '\n'.join(out) + s[b:]
  rows = []
  sd = os.path.join(HERE, 'seeded')
  for d in sorted(os.listdir(sd)):
    mf = os.path.join(sd, d, 'meta.json')
    if os.path.exists(mf):
      with open(mf) as f:
        m = json.load(f)
      rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | "
                  f"{m.get('caught_by', 'not yet run')} |")
  a = s.index('<!-- seeded -->')
  s = (s[:a] + '<!-- seeded -->\n| id | property | breaks | needs | caught by |\n'
       '|---|---|---|---|---|\n' + '\n'.join(rows) + '\n<!-- end -->\n')
  with open(path, 'w') as f:
    f.write(s)


if __name__ == '__main__':
  main()
  design()
