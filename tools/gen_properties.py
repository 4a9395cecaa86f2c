#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            **({"state": [dict(zip(("name", "meaning", "where"), s)) for s in state]} if state else {}),
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            **({"observe_at": observe} if observe else {}),
            "hook_needed": None,
        },
    })

B = "padasip/filters/base_filter.py"
FL = "padasip/filters/"
ALLF = [B] + [FL + f for f in ("ap.py", "gmcc.py", "gngd.py", "llncosh.py", "lmf.py", "lms.py", "nlmf.py", "nlms.py",
        "nsslms.py", "ocnlms.py", "rls.py", "sslms.py", "vslms_ang.py", "vslms_benveniste.py", "vslms_mathews.py")]

prop("P01", "Batch filtering and sample-by-sample filtering give the same result",
     "For every adaptive filter model, filtering a data set in one batch call, filtering it in several consecutive batch calls, and feeding it one sample at a time (ask for the prediction, then adapt with the target) give the same outputs, the same errors and the same weights after every sample. This holds for any starting weights, any data, any splitting of the data into batch calls and single-sample calls, and it also holds for whatever happens afterwards with the filter.",
     ["inputs", "histories"], "all 15 filter models, all finite real samples, targets, initial weights and parameters, all ways to cut a data sequence into batch runs and single-sample adapts",
     "Each test makes exactly one batch run on one random data set and compares a sum; no test mixes batch and sample-wise use, and only one test adapts a single sample at all.",
     ALLF, [("batch loop", B + ":AdaptiveFilter.run, AdaptiveFilterAP.run"), ("single-sample step", B + ":AdaptiveFilter.adapt, AdaptiveFilterAP.adapt"), ("model state kept between calls", FL + "*.py:learning_rule")],
     ["returned y, e, w", "filter weights attribute w", "predict()"],
     [("w", "current weights", B), ("model memories", "R, last_x, last_e, x_mem, mem_x ...", FL)])

prop("P02", "Batch run returns a consistent record of outputs, errors and weights",
     "A batch run over N samples returns N outputs, N errors and N weight rows such that the first row is the weights the filter had before the run, every output is the inner product of its sample with the weight row of the same index, every error is target minus output, each next row (and finally the weights left in the filter) is the previous row plus the learning rule's increment computed from exactly that sample and error. It holds for all models whose output is the plain inner product (every one but OCNLMS) and for any user-defined learning rule plugged into the base filter class; for AP the increment is the one of the projection update.",
     ["inputs", "programs"], "all models but OCNLMS, arbitrary (symbolic) learning rules in a subclass, all data, weights, lengths",
     "The tests look at the sum of the outputs of one random data set; errors and weight rows returned by a run are never looked at.",
     ALLF, [("run loop", B + ":AdaptiveFilter.run"), ("AP run loop", B + ":AdaptiveFilterAP.run"), ("output", B + ":AdaptiveFilter.predict")],
     ["returned y, e, w", "f.w after the run"])

prop("P03", "Memoryless filters update weights exactly by their documented rule",
     "After every sample the weight increment of LMS is mu*e*x, of LMF mu*e^3*x, of NLMS mu*e*x/(eps+|x|^2), of NLMF mu*e^3*x/(eps+|x|^2), of SSLMS mu*sgn(e)*sgn(x), of NSSLMS mu*sgn(e)*sgn(x)/(eps+|x|^2), of Llncosh mu*tanh(lambd*e)*x and of GMCC mu*lambd*alpha*exp(-lambd*|e|^alpha)*|e|^(alpha-1)*sgn(e)*x, where e is the target minus the output computed with the weights before the update. The increment depends on nothing but the current sample, error and parameters: not on the position in the data, on earlier samples or on special values.",
     ["inputs", "histories"], "eight filter models, all sample values, targets, weights, step sizes and parameters (eps>0, alpha>=1), any position in the data",
     "One random trajectory per model with one parameter setting is summed; a wrong rule in a region those 100 normal samples do not visit (zeros, ties, tiny or large errors, later positions, other parameters) is invisible.",
     [B] + [FL + f for f in ("lms.py", "lmf.py", "nlms.py", "nlmf.py", "sslms.py", "nsslms.py", "llncosh.py", "gmcc.py")],
     [("learning rules", FL + "{lms,lmf,nlms,nlmf,sslms,nsslms,llncosh,gmcc}.py:learning_rule")], ["f.w before and after adapt/run"])

prop("P04", "Variable step-size and GNGD filters adapt step and weights by their recursion",
     "With all memories (previous error, sample, phi) starting at zero, the weight increment is mu_k*e_k*x_k with mu_k = mu_{k-1} + ro*e_k*g_k, mu before the first sample being the given mu; g_k is e_{k-1}*<x_{k-1},x_k> for Mathews, <x_{k-1},phi_k> with phi_k = a*phi_{k-1} + e_{k-1}*x_{k-1} for Ang, and <x_{k-1},phi_k> with phi_k = (I - mu_{k-1}*x_{k-1}x_{k-1}^T)phi_{k-1} + e_{k-1}*x_{k-1} for Benveniste. For GNGD the increment is mu*e_k*x_k/(eps_k+|x_k|^2) with eps_k = eps_{k-1} - ro*mu*e_k*e_{k-1}*<x_k,x_{k-1}>/(|x_{k-1}|^2+eps_{k-1})^2, starting from the given eps. The recursion runs over the whole life of the filter, across batch and single-sample calls.",
     ["inputs", "histories"], "4 models, all histories of samples and targets, all parameters for which the formulas are defined",
     "One trajectory with one tiny ro per model: there the step-size recursion contributes almost nothing to the tested sum, so most of the recursion is not exercised at all.",
     [B] + [FL + f for f in ("gngd.py", "vslms_ang.py", "vslms_benveniste.py", "vslms_mathews.py")],
     [("recursions", FL + "{gngd,vslms_ang,vslms_benveniste,vslms_mathews}.py:learning_rule")], ["f.w before and after adapt/run"],
     [("last_e,last_x,last_fi,last_mu,eps", "previous step", FL)])

prop("P05", "Affine projection filter performs the regularised projection update",
     "After every sample the AP filter moves its weights by mu * X (X^T X + ifc*I)^-1 (d - X^T w), where X holds the last `order` input vectors (newest first, zeros before the first sample of the filter's life) and d the matching targets; output and error reported for the sample are the newest entries. The history window is exactly `order` samples, slides over batch and single-sample calls alike, and samples older than it have no influence.",
     ["inputs", "histories", "configurations"], "all data histories, orders, lengths, mu and ifc>0",
     "One run with order 5 and one data set; single-sample adaptation of AP, other orders and history across calls are never run.",
     [B, FL + "ap.py"], [("sliding memories and solve", B + ":AdaptiveFilterAP.adapt, run"), ("projection", FL + "ap.py:learning_rule")], ["f.w", "y, e, w"],
     [("x_mem,d_mem", "last samples", B)])

prop("P06", "RLS weights solve the exponentially weighted least-squares problem",
     "After k samples the weights of the RLS filter are the exact minimiser of sum_i mu^(k-i)*(d_i - <w,x_i>)^2 + mu^k*eps*|w - w_start|^2, for every forgetting factor 0<mu<=1 and every eps>0. It holds for every history of samples over batch and single-sample calls.",
     ["inputs", "histories"], "all samples, targets, initial weights, mu in (0,1], eps>0, number of samples so far",
     "A single run sums the outputs; nothing relates the weights to the least-squares problem the filter exists to solve.",
     [B, FL + "rls.py"], [("inverse correlation recursion", FL + "rls.py:learning_rule")], ["f.w after each sample"], [("R", "inverse of the weighted correlation matrix", FL + "rls.py")])

prop("P07", "OCNLMS centres inputs and targets by the mean of its memory",
     "The OCNLMS output for a sample is <w, x - mx> + md and its weight increment is mu*e*(x - mx)/(eps + |x - mx|^2), where mx and md are the means of the input vectors and of the targets held in a memory that keeps the most recent `mem` samples (zero while it is empty; for the increment mx already includes the current input). Samples that have left the memory have no influence on the centring.",
     ["inputs", "histories"], "all histories, mem sizes, mu, eps>0",
     "One run with mem equal to the number of samples; the memory is never full and its content is never examined.",
     [B, FL + "ocnlms.py"], [("ring memory", FL + "ocnlms.py:read_memory, update_memory_x, update_memory_d"), ("increment", FL + "ocnlms.py:learning_rule")], ["y, e, w", "predict"],
     [("mem_x, mem_d, mem_idx", "ring memories", FL + "ocnlms.py")])

prop("P08", "Asking for a prediction never changes a filter or network",
     "Calling predict on an adaptive filter (any model) or predict/run/test on a trained network leaves it as it was: however many predictions are asked for, on whatever inputs, at whatever points between updates, all later outputs, errors and weights are the same as if they had not been asked for. For every filter but OCNLMS the prediction is the inner product of the current weights and the input.",
     ["inputs", "histories", "schedules"], "all models, all inputs, all placements and numbers of predict calls in a history of adapts and runs",
     "No test calls predict directly.",
     ALLF + ["padasip/ann/mlp.py"], [("predict", B + ":AdaptiveFilter.predict"), ("OCNLMS predict", FL + "ocnlms.py:predict"), ("MLP predict/run/test", "padasip/ann/mlp.py")],
     ["predict(), adapt(), run() results"])

prop("P09", "Caller-owned data is neither modified nor kept by reference",
     "No function or method of the library modifies an array handed to it (samples, targets, initial weights, weight histories, series, labels). Nothing the library keeps refers to such an array: overwriting it afterwards, for example reusing one buffer for every new sample or weights vector for another filter, changes no later result, and arrays returned by one call are not altered by later calls.",
     ["inputs", "histories"], "all public functions and filter models, all data, all points at which the caller overwrites its buffers",
     "Tests never look at their inputs again after a call and never reuse a buffer.",
     ALLF + ["padasip/ann/mlp.py", "padasip/preprocess/", "padasip/detection/", "padasip/misc/error_evaluation.py"],
     [("copying of inputs", B + ":run, init_weights"), ("stored previous samples", FL + "{gngd,vslms_*}.py:learning_rule"), ("copies", "padasip/detection/le.py, elbnd.py, ese.py")],
     ["argument arrays after the call", "later results after overwriting a buffer", "earlier returned arrays"])

prop("P10", "Separate filter and network objects never influence each other",
     "Any number of filters (of the same or different models) and networks can be used in any interleaving, and each gives exactly the results it would give if it were alone. In particular two filters created from the same weights array or the same parameters share nothing, and re-creating a filter starts from a clean state.",
     ["inputs", "schedules"], "all pairs of models, all interleavings of their operations, all data",
     "Every test uses a single object.",
     ALLF + ["padasip/ann/mlp.py"], [("per-object state", B + ":__init__"), ("model memories created per object", FL + "*.py:__init__")], ["f.w, y, e, w of each object"])

prop("P11", "Initial weights are taken as requested and wrong requests are refused",
     "A filter of size n created with a sequence of n numbers starts with exactly those values as its own floating point copy, with \"zeros\" it starts at zero and with \"random\" it starts with n draws of a normal distribution with mean 0 and deviation 0.5 from numpy's global generator (so seeding it reproduces them). A sequence of any other length, any other text or non-numeric content is refused with ValueError.",
     ["inputs", "configurations"], "all 15 models, all weight values and lengths, all strings",
     "Tests only use random weights and once zeros; no explicit weights with checking, no refusals.",
     [B], [("init_weights", B + ":AdaptiveFilter.init_weights")], ["f.w after construction"])

prop("P12", "Filters selected by name are exactly the documented classes, any letter case",
     "AdaptiveFilter(model, ...), filter_data(d, x, model, ...) and get_filter(model) accept every documented model name in any mixture of letter case and give the class of that name with all further parameters passed on unchanged, so that they behave exactly like constructing (and running) the class directly, filter_data taking the filter size from the data. Every other name and a missing filter size is refused with ValueError.",
     ["inputs", "configurations"], "all strings, all parameters, all data",
     "No test selects a filter by name.",
     ["padasip/filters/__init__.py"], [("registry", "padasip/filters/__init__.py:FILTERS"), ("factories", "padasip/filters/__init__.py:AdaptiveFilter, filter_data, get_filter")], ["type and behaviour of the returned filter"])

prop("P13", "Pretrained run equals repeated training runs followed by a run on the rest",
     "A pretrained run over N samples with training share r and E epochs gives the same outputs, errors, weight record and final filter as E batch runs over the first int(N*r) samples followed by one batch run over all the others, for every model. No sample is lost or used in both parts.",
     ["inputs", "configurations"], "all data, all shares leaving both parts non-empty, all epoch counts",
     "Pretrained runs are not tested at all.",
     [B], [("pretrained_run", B + ":AdaptiveFilter.pretrained_run")], ["y, e, w", "f.w"])

prop("P14", "A filter that makes no error does not move",
     "Whenever the error of a sample is exactly zero the weights stay exactly as they are, for every model except AP and OCNLMS (GMCC with a shape of at least 1), whatever was fed before. If the targets of a whole history are reproduced exactly by the initial weights, every model except OCNLMS (including AP and RLS, with any parameters) reports zero errors and keeps these weights for ever.",
     ["inputs", "histories"], "14 models, all histories, all parameters for which the update is defined",
     "The tests use noisy targets, so an exactly zero error never occurs.",
     ALLF, [("learning rules", FL + "*.py:learning_rule")], ["f.w before and after"])

prop("P15", "Inside the documented stability range an update never increases the error",
     "For LMS with mu*|x|^2 in [0,2], for NLMS with 0 <= mu <= 2 + 2*eps/|x|^2, and for RLS with 0 < mu, the error of the just processed sample recomputed with the new weights is at most as large in magnitude as before the update. With noise-free targets <w*,x> and the same step ranges (LMS, NLMS) the distance of the weights from w* never grows, and inside the open range a non-zero error strictly shrinks.",
     ["inputs", "histories"], "all samples, weights, targets, step sizes within the range, any history before",
     "Stability is never asserted; one trajectory per model cannot establish an inequality for all samples.",
     [B, FL + "lms.py", FL + "nlms.py", FL + "rls.py"], [("normalisation", FL + "nlms.py:learning_rule"), ("update", B + ":adapt, run"), ("gain", FL + "rls.py:learning_rule")], ["errors before and after the update"])

prop("P16", "Refused calls raise ValueError and leave the object untouched",
     "When samples and targets of a batch run or of network training/testing differ in length, or the number of features differs from the filter or network size, ValueError is raised, and the filter or network afterwards behaves exactly as if the refused call had never been made. The same holds for a filter's batch run on lists that contain anything that is not a number. Error measures of series of unequal length, unknown detection or error functions, and non-integer or non-positive history lengths are refused with ValueError too.",
     ["inputs", "histories"], "all models, all mismatching lengths and widths, all data, any history before and after the refused call",
     "No test provokes an error at all.",
     [B, "padasip/ann/mlp.py", "padasip/misc/error_evaluation.py", "padasip/detection/elbnd.py", "padasip/preprocess/input_from_history.py"],
     [("length checks", B + ":run"), ("checks", "padasip/ann/mlp.py:train, test"), ("checks", "padasip/misc/error_evaluation.py:get_valid_error, get_mean_error")], ["exception type", "state after"])

prop("P17", "History matrix holds exactly the sliding windows of the series",
     "input_from_history(a, n) returns a matrix with len(a)-n+1 rows and n columns in which row i is a[i], ..., a[i+n-1] as floating point numbers, for every series of at least n numbers. With bias there is one additional last column of ones and nothing else changes.",
     ["inputs", "configurations"], "all series contents, lengths and n, bias on or off",
     "One series of consecutive integers, n=4, checked by shape and mean only; bias never used.",
     ["padasip/preprocess/input_from_history.py"], [("windowing", "padasip/preprocess/input_from_history.py:input_from_history")], ["returned matrix"])

prop("P18", "Standardisation computes (x-offset)/scale and is undone by its inverse",
     "standardize returns (x - offset)/scale elementwise, using the given offset and scale (zero included for the offset) and, for each of the two not given, the mean or the population standard deviation of the series; without any given the result has mean 0 and standard deviation 1. standardize_back returns xs*scale + offset, so that applying it with the same offset and scale to the standardised series gives back the original.",
     ["inputs", "configurations"], "all series, offsets, non-zero scales, all four combinations of given and default arguments",
     "One series with defaults only; the explicit offset and scale and the round trip are never tested.",
     ["padasip/preprocess/standardize.py", "padasip/preprocess/standardize_back.py"], [("formulas", "padasip/preprocess/standardize.py, standardize_back.py")], ["returned series"])

prop("P19", "Error measures equal their definitions for one or two series",
     "For every error series e, or pair of series with e = x1 - x2, MAE is mean(|e|), MSE is mean(e^2), RMSE is the square root of MSE and logSE is 10*log10(e^2) for every element, and get_mean_error gives the measure named by its function argument. The second series is always used when given, whatever its values.",
     ["inputs"], "all series, any length >= 1, one or two series",
     "One fixed pair of short series per measure; get_mean_error is never called.",
     ["padasip/misc/error_evaluation.py"], [("measures", "padasip/misc/error_evaluation.py:MAE, MSE, RMSE, logSE, get_mean_error"), ("sentinel", "padasip/misc/error_evaluation.py:get_valid_error")], ["returned values"])

prop("P20", "PCA projects on the covariance eigenvectors with the largest eigenvalues",
     "PCA_components(x) gives the eigenvalues of the sample covariance matrix of the columns of x in descending order. PCA(x, n) gives the n-column data set obtained by projecting every row of x on the unit eigenvectors (up to sign) belonging to the n largest eigenvalues, in that order, so its columns are uncorrelated with variances equal to those eigenvalues; n defaults to one less than the number of columns and an n that does not reduce the data is refused.",
     ["inputs", "configurations"], "all data sets (eigenvalues distinct), all n",
     "One random data set; the mean of all eigenvalues and of all projected values is compared, which does not depend on the order.",
     ["padasip/preprocess/pca.py"], [("ordering and projection", "padasip/preprocess/pca.py:PCA, PCA_components")], ["returned arrays"])

prop("P21", "LDA projects on the eigenvectors of inv(Sw)*Sb in discriminant order",
     "With Sw the within-class and Sb the between-class scatter matrix of the labelled data, LDA_discriminants gives the eigenvalues of inv(Sw)*Sb in descending order and LDA(x, labels, n) gives every row of x projected on the eigenvectors belonging to the n largest of them, in that order. The result does not depend on what the labels are called, in which order classes appear, or whether labels are given as a list or an array; n defaults to one less than the number of columns and an n that does not reduce the data is refused.",
     ["inputs", "configurations"], "all data sets with invertible Sw, all assignments of labels, all n",
     "One random data set; means of all values are compared, which hides ordering and much of the class weighting.",
     ["padasip/preprocess/lda.py"], [("scatter matrices", "padasip/preprocess/lda.py:LDA_base"), ("ordering", "padasip/preprocess/lda.py:LDA, LDA_discriminants")], ["returned arrays"])

prop("P22", "ELBND equals the max or sum of |weight increment times error| of each sample",
     "For a weight history w (N rows) and errors e the ELBND value at sample k is the maximum (or sum, as selected) over the weights i of |(w_i(k+1) - w_i(k)) * e(k)|, and 0 for the last sample, which has no increment. There is one non-negative value per sample.",
     ["inputs"], "all weight histories, errors, sizes and both output functions",
     "One NLMS trajectory with the maximum, summed over all samples.",
     ["padasip/detection/elbnd.py"], [("ELBND", "padasip/detection/elbnd.py:ELBND")], ["returned vector"])

prop("P23", "Direct learning entropy is the z-score of each increment over its window",
     "With no sensitivities given, learning_entropy(w, m, order) returns an array shaped like w whose entry for weight i at sample k is (|D_i(k)| - mean)/(std + 1e-10), with D_i the order-th difference of the weight history (backward looking) and mean and population standard deviation taken over |D_i(k-m)|, ..., |D_i(k-1)|. It holds for every sample whose window contains defined differences only (k >= m + order); the first m samples are 0.",
     ["inputs", "configurations"], "all weight histories, m, order",
     "The sum over one trajectory with one m and order is compared to three decimals.",
     ["padasip/detection/le.py"], [("direct branch", "padasip/detection/le.py:learning_entropy")], ["returned array"])

prop("P24", "Multiscale learning entropy is the share of exceeded sensitivity thresholds",
     "With sensitivities given as a list or array, learning_entropy returns one value per sample: the fraction of all pairs of a weight i and a sensitivity a for which |D_i(k)| > a * mean(|D_i(k-m)|, ..., |D_i(k-1)|), with D_i the order-th backward difference of the weight history. It holds for every sample with k >= m + order, the first m samples are 0, and all values lie between 0 and 1.",
     ["inputs", "configurations"], "all weight histories, m, order, sensitivities",
     "The sum over one trajectory with two sensitivities is compared.",
     ["padasip/detection/le.py"], [("multiscale branch", "padasip/detection/le.py:learning_entropy")], ["returned vector"])

prop("P25", "Extreme seeking entropy follows its peak-over-threshold definition",
     "ESE(w, window, pot_method) returns one value per sample, 0 for the first `window` samples; for any later sample with a defined window (k > window) it is minus the decimal logarithm of the product over the weights of 1, if the absolute increment does not exceed the smallest of the peaks selected from the previous `window` absolute increments of that weight, and otherwise of 1e-20 plus the probability of exceeding it under the generalized Pareto distribution fitted to those peaks with the location fixed at the smallest of them. The peaks are the largest of the values in descending order, their number given by the method: 10%, 30%, 35%, sqrt, log10, log10log10 of the window length (at least one).",
     ["inputs", "configurations"], "all weight histories, windows and methods; the fit and the distribution function are arbitrary",
     "There is no test of ESE.",
     ["padasip/detection/ese.py"], [("peaks", "padasip/detection/ese.py:pot"), ("ESE", "padasip/detection/ese.py:ESE")], ["returned vector"])

prop("P26", "Network output is the documented layered function of input and weights",
     "A network computes, layer by layer, the activation (sigmoid 1/(1+exp(-z)) or tanh) of bias plus weighted inputs and a linear output layer with bias, giving one number or one value per output; predict, run and test agree, run giving the outputs of all rows in order and test giving target minus output. Initial weights of every node are drawn with mean zero and deviation m^-0.5, m being the number of its inputs, and the automatic learning rate of a layer is that m^-0.5, otherwise the given value.",
     ["inputs", "configurations"], "all inputs, weights, layer layouts within the bound, both activations, one or more outputs",
     "The network has no tests.",
     ["padasip/ann/mlp.py"], [("forward pass", "padasip/ann/mlp.py:Layer.predict, NetworkMLP.predict, run, test")], ["predict, run, test"])

prop("P27", "Network update is one gradient-descent step on the squared error",
     "Updating a network with target d after predicting an input changes every weight of every layer by minus the learning rate of its layer times the derivative of half the squared error (summed over the outputs) with respect to that weight, taken at the weights before the update, and returns the error d - y. It holds for one or more hidden layers, one or more outputs and both activations.",
     ["inputs", "configurations", "histories"], "all inputs, targets, weights, learning rates, layouts within the bound",
     "The network has no tests.",
     ["padasip/ann/mlp.py"], [("back-propagation", "padasip/ann/mlp.py:Layer.update, NetworkMLP.update")], ["weights before and after an update"])

prop("P28", "Network training logs every error and keeps inputs and targets paired",
     "Training for E epochs over N samples equals E passes of predict-then-update over all samples and returns the E*N errors in the order in which they occurred, together with, per epoch, the sum of the squares of all N errors of that epoch divided by N. With shuffling the order of samples may change but every input stays paired with its own target and every sample is used once in every epoch.",
     ["inputs", "schedules"], "all data, any shuffle permutation, epochs, one or more outputs",
     "The network has no tests.",
     ["padasip/ann/mlp.py"], [("training loop", "padasip/ann/mlp.py:NetworkMLP.train")], ["returned e, MSE and weights"])

prop("P29", "Results do not depend on how the numbers are represented",
     "The same numerical data given as nested lists, tuples, integer arrays (of 64 or fewer bits), floating point arrays, non-contiguous views or Fortran-ordered arrays give the same results, in floating point, from every filter (batch run and single adaptation), weight initialisation, history matrix, standardisation, error measure and learning entropy; the same holds for array arguments of network run, test and training and of ELBND. In particular nothing is truncated to integers, or overflows a small integer type, when samples, targets, weights or parameters happen to be integers.",
     ["inputs", "configurations"], "all integer-valued data, all listed representations, all models",
     "Tests use one representation per function.",
     ALLF + ["padasip/preprocess/", "padasip/misc/error_evaluation.py", "padasip/detection/le.py"], [("conversions", B + ":run, init_weights"), ("conversions", "padasip/preprocess/*.py, padasip/misc/error_evaluation.py:get_valid_error")], ["results for two representations"])

prop("P30", "Filters and detectors are causal",
     "The weights used for sample k of any filter and all results before k do not depend on samples or targets from k on, and the output for sample k does not depend on its target. Novelty values for sample k do not depend on later weight rows (learning entropy, ESE) or on rows after the next (ELBND).",
     ["inputs", "histories"], "all models and detectors, all pairs of histories that agree up to k, every k",
     "A single data set cannot show independence from the future.",
     ALLF + ["padasip/detection/le.py", "padasip/detection/elbnd.py", "padasip/detection/ese.py"], [("sample loop", B + ":run"), ("windows", "padasip/detection/*.py")], ["two runs that differ only in the future"])

prop("P31", "The order of the features has no meaning",
     "Permuting the columns of the samples together with the initial weights permutes the weight record in the same way and leaves outputs and errors of every filter model unchanged; permuting the weights of a history leaves ELBND, multiscale learning entropy and ESE unchanged and permutes direct learning entropy. PCA and LDA results are unchanged up to sign when the columns are permuted.",
     ["inputs"], "all data, all permutations within the bound, all models",
     "Tests never transform their data.",
     ALLF + ["padasip/detection/", "padasip/preprocess/pca.py", "padasip/preprocess/lda.py"], [("vector formulas", FL + "*.py:learning_rule")], ["results for permuted data"])

prop("P32", "Results repeat exactly, and randomness is used only where it was asked for",
     "Calling a function of the library again with equal arguments gives the same result, whatever was computed in between: other data, other shapes, other functions, argument arrays that were refilled in place, or earlier results that the caller overwrote. A filter or network built again with the same given weights and used in the same way gives the same results again. Random numbers are drawn only for initial weights that were requested to be random, for the initial weights of networks and for shuffled training; nothing else advances numpy's global random generator, nothing ever reseeds it, and numpy's error handling settings are left as they were.",
     ["inputs", "histories"], "all data functions (history matrix, standardisation, PCA, LDA, error measures, learning entropy, ELBND, ESE), all filter models, networks; all data; calls with equal or different data and shapes in between",
     "Every test calls a function once, right after seeding the generator, so that a cache, a leftover of an earlier call or an extra random number cannot be noticed.",
     ALLF + ["padasip/ann/mlp.py", "padasip/preprocess/", "padasip/detection/", "padasip/misc/error_evaluation.py"],
     [("random weights", B + ":init_weights"), ("random weights and shuffling", "padasip/ann/mlp.py:Layer, NetworkMLP.__init__, NetworkMLP.train")],
     ["results of repeated calls", "state of numpy.random", "numpy.geterr()"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
