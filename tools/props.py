#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
L = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    L.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

PM = "fortuna/prob_model/"
p("P01", "Every training option the user sets reaches the machinery that acts on it",
  "When a probabilistic model is trained, every option given in the training configuration (number of epochs, optimizer, parameter freezing, gradient clipping and accumulation, metrics, validation and early-stopping settings, checkpoint saving/restoring/dumping, verbosity, callbacks, device and compilation choice) arrives unchanged and under its own meaning at the trainer or checkpoint machinery that acts on it, for every posterior approximation that documents the option. The loaders, dataset sizes and random key used are likewise those of the call. No posterior approximation silently drops an option, swaps two of them, or replaces a given one by a default.",
  ["configurations", "inputs"], "all 8 posterior approximations x every field of the training configuration x both values of each switch",
  "The tests run each approximation with one or two configurations and only check that training ends; 8 x 27 option/approximation pairs are not observed, and a dropped option changes nothing a test asserts.",
  [PM + "base.py", PM + "classification.py", PM + "regression.py", PM + "fit_config/", PM + "posterior/", "fortuna/training/trainer.py"],
  [("posterior fit methods build the trainer and call it", PM + "posterior/*/*_posterior.py fit"), ("trainer selection", "fortuna/utils/device.py select_trainer_given_devices"), ("configuration objects", PM + "fit_config/*.py")],
  ["constructor arguments of the selected trainer", "arguments of its train entry point", "checkpoint restore/dump calls"])

p("P02", "Every calibration option the user sets reaches the calibration machinery",
  "When a model is calibrated (as part of a probabilistic model, from precomputed outputs, or as a stand-alone calibration model), every option given in the calibration configuration arrives unchanged and under its own meaning at the calibrator or checkpoint machinery that acts on it. The calibration and validation data, their sizes, the chosen loss, uncertainty function and random key used are those of the call. No option is silently dropped, swapped or replaced by a default.",
  ["configurations", "inputs"], "3 calibration entry points x classification/regression x every field of the calibration configurations",
  "Tests calibrate with one small configuration and check only that the call returns.",
  [PM + "base.py", PM + "calib_config/", "fortuna/calib_model/", "fortuna/output_calib_model/"],
  [("calibrate methods", PM + "base.py _calibrate; fortuna/output_calib_model/base.py _calibrate; fortuna/calib_model/base.py _calibrate"), ("calibrator classes", "fortuna/output_calib_model/output_calib_model_calibrator.py, fortuna/calib_model/calib_model_calibrator.py")],
  ["constructor arguments of the calibrator", "arguments of its train entry point"])

p("P03", "Library calls never modify what the caller owns",
  "No library call modifies an array, list, dictionary, configuration object, model state or loader that the caller passed in, nor a default argument object shared between calls. Two consecutive calls with the same arguments therefore start from the same inputs. (Attaching the model's random generator to the component objects handed to a model's constructor is documented behaviour and not meant.)",
  ["inputs", "histories"], "every public entry point, every argument that can be mutated in place, every call sequence",
  "Tests build fresh arguments for each call and never compare them afterwards.",
  ["fortuna/"], [("in-place writes", "all functions: item/attribute assignment, mutating container methods, augmented assignment")],
  ["argument objects after the call", "default argument objects after the call"])

p("P04", "Documented-optional arguments really are optional",
  "Every argument of a public entry point that is documented as optional may be omitted (or passed as none) without the call failing on the missing value. Each such argument is either replaced by its documented default before use or its use is skipped. (Arguments documented as optional only in some configurations, such as calibration parameters of a model with an output calibrator, are meant in the configurations in which they are optional.)",
  ["inputs", "configurations"], "every optional argument of the public entry points, omitted alone or together with the others",
  "Tests pass the optional arguments in one or two combinations only.",
  ["fortuna/"], [("none-guards in front of each use", "all public methods")])

p("P05", "Randomness follows the key discipline: explicit keys honoured, no key reused",
  "A random key passed explicitly determines all randomness of that call: it is used instead of, and never mixed with, the model's own generator, and calling without a key draws a fresh one from it. No key is consumed by two independent random draws, is used after having been split, or is returned by the generator while remaining its internal state. (One set of posterior samples may serve all batches of a call, and composite quantities may reuse the draws of their parts.)",
  ["inputs", "histories"], "every sampling entry point, with and without a key, and every sequence of calls",
  "Reused keys yield well-formed samples; only correlations across draws reveal them, which no test examines.",
  ["fortuna/utils/random.py", PM + "predictive/", PM + "posterior/", "fortuna/likelihood/", "fortuna/prob_output_layer/", "fortuna/training/", "fortuna/model/"],
  [("generator and keyed methods", "fortuna/utils/random.py"), ("key splitting", "rng parameters across the package")])

p("P06", "Every call between components fits the callee and every name exists",
  "On every path of every public operation, each internal call supplies arguments the callee accepts (no missing, unknown or duplicated argument), each name and attribute used has been defined before use on that path, and unpacked values have the expected number of parts. A public operation therefore never ends in an internal name, attribute, signature or unpacking error, including on its error-reporting paths.",
  ["inputs", "configurations", "programs"], "all paths of all functions of the package",
  "Tests execute a fraction of the branches; error paths and rare option combinations are never run.",
  ["fortuna/"], [("call graph and definitions", "whole package")])
p("P07", "Checkpoints: saved where asked, complete, and restored as the same kind",
  "A state saved to a directory is written to exactly that directory (for multi-member posteriors: one sub-directory per member, the same ones read back), contains every field of the state, and loading it rebuilds the same kind of state with the given optimizer. Periodic saving happens exactly when a directory and a frequency are given and the step is a multiple of it, and final dumping exactly when requested; dumping without a directory and saving without a state are refused with an error.",
  ["configurations", "histories"], "all posterior, calibration and output-calibration states; all save/load/dump/restore entry points",
  "Tests save and load to one directory with default settings for a few approximations; frequencies, overwriting, missing directories and dropped fields are not observed.",
  ["fortuna/training/", "fortuna/prob_model/posterior/", "fortuna/calib_model/", "fortuna/output_calib_model/"],
  [("checkpoint mixin", "fortuna/training/mixin.py WithCheckpointingMixin"), ("state repositories", "fortuna/training/train_state_repository.py and posterior repositories")])
p("P08", "Frozen parameters are never updated by training",
  "When a freezing function labels parameters as frozen, the optimizer state, gradient step and every posterior-specific update leave them untouched for the whole training, in every posterior approximation that accepts a freezing function; parameters labelled trainable are updated with the user's optimizer. The labels used to build the optimizer and to select the differentiated or sampled parameters always come from the same freezing function.",
  ["configurations", "inputs"], "every posterior approximation, every freezing function, every training step",
  "Tests freeze one layer for a few approximations and do not compare parameters after training.",
  ["fortuna/utils/freeze.py", "fortuna/training/trainer.py", "fortuna/prob_model/posterior/"],
  [("optimizer partition", "fortuna/utils/freeze.py get_trainable_paths / get_frozen_paths / freeze_optimizer; prob_model/posterior/base.py _freeze_optimizer_in_state; training/trainer.py on_train_start / _get_all_params")])
p("P10", "Single-device, compiled and multi-device execution agree",
  "For each training or prediction operation, the plain, compiled and multi-device variants perform the same steps: the multi-device one averages gradients and auxiliary values over devices, keeps the mutable state synchronised, shards inputs before and un-shards results after, and hands callers un-replicated states and arrays of the same shape. The variant used is the one implied by the device and compilation options.",
  ["configurations"], "every operation with a device-dependent variant",
  "The sandbox and CI have one CPU device, so the multi-device variants never run in tests.",
  ["fortuna/training/trainer.py", "fortuna/utils/device.py", "fortuna/prob_model/", "fortuna/calib_model/", "fortuna/output_calib_model/", "fortuna/data/loader/"],
  [("pmap/pmean/replicate/unreplicate", "trainers and predictive classes")])
p("P11", "Validation and evaluation never influence what training learns",
  "Validation batches, metrics and early-stopping monitoring never modify parameters, optimizer state or mutable model state, and gradient steps are computed on training batches only, with the model in training mode; validation and prediction run the model in evaluation mode. Training, validation and calibration loaders are never exchanged.",
  ["inputs", "histories"], "every trainer and calibrator, every epoch",
  "A leak only improves the numbers tests look at.",
  ["fortuna/training/trainer.py", "fortuna/prob_model/", "fortuna/calib_model/", "fortuna/output_calib_model/"],
  [("training/validation loops", "fortuna/training/trainer.py")])
p("P12", "Early stopping stops and checkpoints exactly by the monitored value",
  "With a validation set and a positive patience, training monitors the configured validation quantity (its mean over the validation minibatches) in the configured direction once per validation epoch (the first epoch and every `eval_every_n_epochs`-th from there), saves a checkpoint exactly when it improves (if a directory is set) and stops exactly when the patience is exhausted; otherwise every requested epoch runs. The state returned is the last one. An unknown direction is reported, not silently ignored.",
  ["histories", "configurations"], "every sequence of validation values and every monitor/patience/frequency setting",
  "Tests never run enough epochs with a controlled validation sequence.",
  ["fortuna/training/trainer.py", "fortuna/training/mixin.py"],
  [("early stopping", "fortuna/training/trainer.py"), ("mixins", "fortuna/training/mixin.py WithEarlyStoppingMixin")])
p("P13", "Callbacks run once per hook point, in order, and their state is used",
  "Each user callback is invoked exactly once at the start of every epoch, at the end of every epoch and at the end of every training minibatch (with gradient accumulation: of every accumulated group of minibatches), in list order, and the state each returns is the one used from then on.",
  ["histories", "configurations"], "every trainer and posterior, every epoch and batch, any number of callbacks",
  "One callback with one epoch is tested.",
  ["fortuna/training/callback.py", "fortuna/training/trainer.py", "fortuna/prob_model/posterior/"],
  [("hook points", "fortuna/training/trainer.py")])
p("P14", "Gradient post-processing: average, clip, apply, in that order and once",
  "Gradients pass through the configured clipping and accumulation exactly once between computation and application, the accumulated update applied every configured number of steps is the average of the micro-steps, and with dynamic loss scaling a step with non-finite gradients changes neither parameters nor optimizer state.",
  ["inputs", "configurations"], "every trainer, every accumulation count, clipping bound and dynamic-scale setting",
  "Tests use no accumulation, no scaling and no clipping in combination.",
  ["fortuna/training/trainer.py", "fortuna/training/mixin.py"],
  [("gradient step", "fortuna/training/trainer.py training_step / sync_gradients_and_loss")])
p("P15", "Ensemble and sample repositories keep members apart and complete",
  "A multi-member posterior state repository stores and returns each member under its own index: writing one member never changes another, reading an index returns that member, joint reads return all members in index order, and the number of members is the configured one.",
  ["histories"], "every sequence of put/get/extract/update on a multi-state repository",
  "Tests check one put/get sequence.",
  ["fortuna/prob_model/posterior/posterior_multi_state_repository.py", "fortuna/prob_model/posterior/sgmcmc/", "fortuna/prob_model/posterior/deep_ensemble/"],
  [("repository", "fortuna/prob_model/posterior/posterior_multi_state_repository.py")])
p("P16", "Invalid arguments are refused with an error before any work is done",
  "Each documented restriction on arguments (allowed names, ranges, shapes, dependencies between options) is checked before results are computed, on every path that accepts the argument, and a violation raises an informative error instead of yielding a result.",
  ["inputs"], "every validated argument of every public entry point",
  "Tests exercise few invalid values.",
  ["fortuna/"], [("guards that raise", "all constructors and public methods")])
p("P17", "Calibration parameters and mutable state flow through every prediction path",
  "Every likelihood, joint, predictive and calibration-loss computation applies the model with the given parameters, mutable state, calibration parameters and calibration mutable state, each in its own role, and returns each requested auxiliary value under its own name; unsupported requests are refused. Model outputs pass through the output calibrator exactly when one is configured.",
  ["inputs", "configurations"], "all functions of likelihood, joint, predictive and calibration losses; all combinations of optional state and requested auxiliary values",
  "Tests use a model without mutable state and few auxiliary requests.",
  ["fortuna/likelihood/", "fortuna/prob_model/joint/", "fortuna/prob_model/predictive/", "fortuna/calib_model/", "fortuna/output_calib_model/"],
  [("auxiliary values", "_batched_log_joint_prob and friends")])
p("P18", "Model managers route parameters, state, keys and mode to the right sub-model",
  "Applying or initialising a (possibly composed) model gives each sub-model its own parameters, its own mutable state and its own random keys, runs it in training mode exactly when requested, and returns outputs and updated mutable state of each sub-model in its own slot. Nothing of one sub-model is used for another.",
  ["inputs", "configurations"], "classification, regression and spectral-normalised managers; with and without mutable state, dropout key, training mode",
  "Tests use sub-models of the same class without mutable state, so a swap is invisible.",
  ["fortuna/model/model_manager/"], [("apply/init", "fortuna/model/model_manager/*.py")])
p("P19", "Data loaders keep inputs and targets paired, complete and re-iterable",
  "A loader yields inputs together with their own targets, can be iterated any number of times, and conversions between loader kinds keep the kind, the order and all data; splitting gives two disjoint parts that together are the original, the size is the number of rows yielded, and any shuffling permutes inputs and targets identically.",
  ["inputs", "histories"], "all loader classes, conversions and splits, every batch size, shuffle flag and number of iterations",
  "Tests use small arrays, one pass, and check shapes.",
  ["fortuna/data/"], [("iterables and conversions", "fortuna/data/loader/*.py")])
p("P20", "Conformal membership: intervals for regression, label sets for classification",
  "Membership in a conformal interval means lower bound <= value <= upper bound, and membership in a conformal set means being one of its elements, each method using the notion that matches its own output. Interval methods return the lower bound first; widening the error tolerance never uses the other tail. Scores, quantile levels and sets are the ones each method documents: with nonconformity scores a label enters the set when fewer than (1 - error)(n + 1) calibration scores lie below its own, and the adaptive methods move the error by gamma times (target error - observed error).",
  ["inputs"], "every conformal method and every input",
  "Tests check one or two methods with few values.",
  ["fortuna/conformal/"], [("is_in", "fortuna/conformal/regression/base.py, fortuna/conformal/classification/base.py")])
p("P21", "Multivalid calibration: test time replays exactly the calibration patches",
  "Iterative multivalid calibration applies to test data exactly the patches it applied to calibration data: the same ones, in the same order, with the same group and bucket selection, the same probability clipping and the same update rule. The number of reported rounds matches the stored patches.",
  ["inputs", "histories"], "all multivalid methods, any number of rounds",
  "Tests check only shapes and that errors decrease.",
  ["fortuna/conformal/multivalid/", "fortuna/conformal/classification/", "fortuna/conformal/regression/"],
  [("calibrate/apply_patches", "fortuna/conformal/multivalid/iterative/base.py")])
p("P24", "Metrics compute what their names say, on matching arguments",
  "Each metric and scoring loss computes the quantity its name and documentation define, pairs predictions and targets in their own roles, each documented alias gives the identical value, and compound metrics are the stated combination of simpler ones. Calibration errors bin the confidences into a partition of (0, 1] and compare, over the same bins, mean confidence with accuracy: the expected one weights the bins by their counts, the maximum one takes the largest gap.",
  ["inputs"], "all metric functions", "Tests check one value per metric.",
  ["fortuna/metric/"], [("metric functions", "fortuna/metric/*.py")])
p("P25", "The training objective is the negative rescaled log joint",
  "The objective minimised in training is the negative of log-prior plus log-likelihood, with the likelihood of a batch rescaled by data-set size over batch size; the sampling methods that ascend use the same quantity with the opposite sign, and each sampler update follows its recursion (momentum decay, gradient times step size, noise of variance 2(1-decay) times step size). The prior is evaluated on all model parameters and the likelihood on the calibrated outputs of the batch.",
  ["inputs"], "all posteriors and batches",
  "Tests check finiteness and shapes of the objective.",
  ["fortuna/prob_model/joint/", "fortuna/likelihood/", "fortuna/prob_model/posterior/"],
  [("objective composition", "fortuna/prob_model/joint/base.py")])
p("P26", "Predictive moments decompose: variance is aleatoric plus epistemic, std its root",
  "For every predictive distribution, the reported variance is the sum of the reported aleatoric and epistemic variances, the aleatoric part being the average of the per-sample variances and the epistemic part the variance of the per-sample means; the standard deviation is the square root of the variance, whether the components are computed or given; and total entropy is aleatoric plus epistemic entropy. Means and probabilities are averages of the same per-sample quantities over all posterior samples, each computed from the parameters and states of its own sample.",
  ["inputs", "configurations"], "all predictive classes, distribution flags, and given or computed components",
  "Tests check shapes.",
  ["fortuna/prob_model/predictive/", "fortuna/output_calib_model/predictive/", "fortuna/prob_output_layer/"],
  [("variance/std", "predictive base classes")])
p("P27", "Predictive methods use all samples of all batches, along the right axes",
  "Every predictive method evaluates each posterior sample on every batch of the inputs, averages or stacks over the sample axis only and concatenates over the data axis only, so that results follow the order of the inputs and do not depend on batch size or device distribution.",
  ["inputs", "configurations"], "all predictive methods, batch sizes, sample counts, distribution flag",
  "Tests check shapes for one batch size on one device.",
  ["fortuna/prob_model/predictive/"], [("loops and vmaps", "fortuna/prob_model/predictive/base.py")])
p("P28", "Using a model before it is trained or calibrated is refused",
  "Operations that need a fitted or calibrated state check for it first and raise an informative error if it is missing; they never continue with uninitialised parameters. After a successful fit or calibration the same operation finds the new state.",
  ["histories"], "every operation that reads fitted state, in every order of calls",
  "Tests always fit first.",
  ["fortuna/"], [("state guards", "posterior, calibration and conformal classes")])
p("P09", "Compiled functions never depend on state that may change after compilation",
  "A function compiled once and reused reads only its traced arguments and static values that are hashable and never change after construction; it has no side effects other than its results. Changing a model or state after compilation is therefore always seen.",
  ["histories", "programs"], "every compiled function and every object it closes over",
  "Stale compiled results need a specific call history (compile, change, call again).",
  ["fortuna/"], [("jit/pmap decorators and calls", "whole package")])
p("P22", "Every name offered in a registry or option list leads to its implementation",
  "Each approximation, optimizer state, scoring function, kind of checkpoint or option value that the library accepts by name has an implementation behind it, and the mapping is consistent in both directions where it is used for saving and loading.",
  ["configurations", "programs"], "all registries and option dispatchers", "Tests use a subset of the names.",
  ["fortuna/"], [("registries", "fortuna/prob_model/posterior/posterior_approximations.py, fortuna/utils/strings.py, enums")])
p("P23", "Hallucination scoring treats texts at prediction exactly as at fitting",
  "The multicalibration of generated texts groups, clusters, scores and thresholds at prediction through the same pipeline as at fitting, with the models chosen at fitting, and saving then loading keeps all of it.",
  ["inputs", "histories"], "all texts and fitting configurations", "Tests mock the language models and use few texts.",
  ["fortuna/hallucination/"], [("fit/predict", "fortuna/hallucination/base.py, grouping/")])
# not decided by static analysis (quantities)
def na(id, title, st, over, text, files, mech):
    p(id, title, st, over, text, "Tests sample a few inputs; the guarantee is about values.", files, mech)
na("P30", "Conformal methods attain the requested coverage", "On exchangeable data, the sets and intervals produced by the conformal methods contain the true target with at least the requested probability.", ["inputs"], "all data distributions and tolerances", ["fortuna/conformal/"], [("quantile computation", "fortuna/conformal/")])
na("P31", "Sampling methods draw from the posterior", "Samples of the stochastic-gradient Monte Carlo methods converge to the posterior distribution, and the diagnostics reported for them approach their ideal values.", ["inputs", "histories"], "all posteriors and step schedules", ["fortuna/prob_model/posterior/sgmcmc/", "fortuna/metric/"], [("integrators", "fortuna/prob_model/posterior/sgmcmc/*/*_integrator.py")])
na("P32", "Likelihoods and predictive quantities stay finite and accurate", "Log-probabilities, entropies, quantiles and calibration errors are finite and numerically accurate for every finite input.", ["inputs"], "all finite inputs", ["fortuna/prob_output_layer/", "fortuna/metric/"], [("log-sum-exp forms", "fortuna/prob_output_layer/")])
na("P33", "Spectral normalisation bounds the Lipschitz constant", "Layers under spectral normalisation have an operator norm at most the configured bound after enough iterations.", ["inputs", "histories"], "all weights", ["fortuna/model/utils/spectral_norm.py"], [("power iteration", "fortuna/model/utils/spectral_norm.py")])
na("P34", "A saved state is restored bit for bit", "Loading a saved state yields arrays equal bit for bit to those saved, on every platform and after any interruption of the save.", ["crash_points", "inputs"], "all states and interruption points", ["fortuna/training/mixins/"], [("third-party serializer", "flax checkpoints")])
na("P35", "Gaussian approximations have the right covariance", "The covariances used by the Laplace, stochastic-weight-averaging and normalised-process approximations equal their defining matrices within numerical error.", ["inputs"], "all models and data", ["fortuna/prob_model/posterior/"], [("covariance formulas", "fortuna/prob_model/posterior/")])
L.sort(key=lambda d: d["id"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in L:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(L))
