"""Writes properties.jsonl (kept as code because the statements share wording)."""
import json, os
P = []
FB = "padasip/filters/base_filter.py"
FI = "padasip/filters/__init__.py"
ALLF = [FB] + ["padasip/filters/%s.py" % s for s in (
    "ap gmcc gngd llncosh lmf lms nlmf nlms nsslms ocnlms rls sslms vslms_ang vslms_benveniste vslms_mathews").split()]
def f(*names): return ["padasip/filters/%s.py" % n for n in names]
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})
ONE = "Each filter has one test: one run of 100 samples with n=4 and one parameter set, compared by a single rounded sum of outputs."

prop("F01", "Batch, split and sample-by-sample filtering agree",
 "For every filter type, parameters and data, filtering a series in one run call, in any sequence of consecutive run calls (empty ones included), or by predict and adapt one sample at a time gives the same outputs, errors, weight histories and final weights. Everything a filter has learned or remembers is carried over from call to call, and later samples never influence earlier results.",
 ["inputs", "histories"], "every filter type and parameter set, every sample sequence, every way to cut it into run and adapt calls",
 ONE + " Only LMS is ever adapted by single samples (once), and no test calls run twice on a filter.",
 ALLF, [("adaptation loop of run", FB + ":AdaptiveFilter.run"), ("single-sample adapt", FB + ":AdaptiveFilter.adapt"), ("duplicated AP code", FB + ":AdaptiveFilterAP.run/adapt")],
 [("w", "adaptive weights", FB), ("x_mem, d_mem", "AP sample memory", FB), ("R", "RLS inverse correlation", "padasip/filters/rls.py"), ("last_e, last_x, last_mu, last_fi, eps", "recursive state", "padasip/filters/gngd.py and vslms_*.py"), ("mem_x, mem_d, mem_idx, mem_empty", "centering memory", "padasip/filters/ocnlms.py")],
 ["y, e, w returned by run", "predict()", "filter.w"])

prop("F02", "Outputs, errors and weight history of a run fit together and stay fixed",
 "A run returns one output, one error and one weight row per sample; weight row k holds the weights in force before sample k is learned (row 0: the weights before the call), every error is the target minus the output, and every output is weight row k times the input vector (OCNLMS excepted, which centers its data). The returned arrays are never changed by later use of the filter.",
 ["inputs", "histories"], "every filter, every data, every later call on the same filter",
 ONE + " The errors and the weight history are never looked at, nor is anything looked at after a second call.",
 ALLF, [("run loop and w_history allocation", FB + ":AdaptiveFilter.run, AdaptiveFilterAP.run")],
 [("w_history", "history of weights of the last run", FB)], ["return values of run and filter_data"])

prop("F03", "Memoryless gradient filters follow their update rules",
 "Each sample with input x and error e = d - w.x changes the weights by exactly: LMS mu*e*x; NLMS mu*e*x/(eps+|x|^2); LMF mu*e^3*x; NLMF mu*e^3*x/(eps+|x|^2); SSLMS mu*sgn(e)*sgn(x); NSSLMS mu*sgn(e)*sgn(x)/(eps+|x|^2); GMCC mu*lambd*alpha*exp(-lambd*|e|^alpha)*|e|^(alpha-1)*sgn(e)*x; Llncosh mu*tanh(lambd*e)*x. This holds for every parameter value, size, starting weights and history, whether the sample arrives through run or adapt, and nothing but the current sample, the current weights and the creation parameters matters.",
 ["inputs", "histories"], "every sample history, size, starting weights and parameter set",
 ONE + " A wrong rule for zero, tiny or large errors or inputs, other parameters, later samples or other sizes passes.",
 f("lms", "nlms", "lmf", "nlmf", "sslms", "nsslms", "gmcc", "llncosh") + [FB], [("learning_rule of each filter", "padasip/filters/*.py"), ("application of the increment", FB)], [("w", "weights", FB)], ["filter.w", "return values of run"])

prop("F04", "Variable step-size filters carry their recursions exactly",
 "With e', x' the previous error and input (zero before the first sample), GNGD updates eps by -ro*mu*e*e'*(x.x')/(|x'|^2+eps)^2 and then moves the weights by mu*e*x/(eps+|x|^2). The VSLMS filters update their step size mu and move the weights by mu*e*x: Mathews adds ro*e*e'*(x'.x); Benveniste adds ro*e*(x'.fi) with fi = (I - mu'*x'x'^T) fi' + e'x'; Ang adds ro*e*(x'.fi) with fi = a*fi' + e'x'. The recursion runs over all samples the filter was ever given, through any mix of run and adapt.",
 ["inputs", "histories"], "every sample history, size and parameter set, over any mix of calls",
 ONE + " The recursions depend on at least two earlier samples and on calls; adapt is never tested for these filters.",
 f("gngd", "vslms_mathews", "vslms_benveniste", "vslms_ang") + [FB], [("learning_rule with memory", "padasip/filters/gngd.py, vslms_*.py")],
 [("eps, last_e, last_x, last_mu, last_fi", "recursive state", "padasip/filters/gngd.py, vslms_*.py")], ["filter.w", "return values of run"])

prop("F05", "AP filter projects on the last `order` samples",
 "After each sample the AP weights move by exactly mu*X*(X^T X + ifc*I)^-1*(D - X^T w), where the columns of X and the items of D are the last `order` inputs and targets, newest first and zero before the first sample; the reported output and error are those of the newest sample. This holds for any order (smaller or larger than the size or the number of samples), and across any mix of run and adapt calls.",
 ["inputs", "histories"], "every sample history, order, size, parameter set and mix of calls",
 ONE + " One order only; adapt has its own copy of the update and is never tested.",
 [FB] + f("ap"), [("memory shift and update in adapt", FB + ":AdaptiveFilterAP.adapt"), ("memory shift in run, update in learning_rule", FB + ":AdaptiveFilterAP.run, padasip/filters/ap.py")],
 [("x_mem, d_mem", "last inputs and targets", FB)], ["filter.w", "return values of run"])

prop("F06", "RLS weights solve the exponentially weighted least-squares problem",
 "After every sample, the RLS weights minimise the sum over all samples seen of mu^age*(d - w.x)^2 plus mu^count*eps*|w - w0|^2, with w0 the starting weights, mu the forgetting factor and eps the initialisation value. This holds for every history given through any mix of run and adapt.",
 ["inputs", "histories"], "every sample history, size, parameter set and mix of calls",
 ONE + " The optimality over the whole history is never checked.",
 f("rls") + [FB], [("recursive inverse of the correlation matrix", "padasip/filters/rls.py:learning_rule"), ("initial R = I/eps", "padasip/filters/rls.py:__init__")],
 [("R", "inverse autocorrelation matrix", "padasip/filters/rls.py")], ["filter.w", "return values of run"])

prop("F07", "OCNLMS centers its data by the means of its memory",
 "OCNLMS predicts w.(x - mx) + md and moves its weights by mu*e*(x - mx)/(eps + |x - mx|^2), where mx and md are the means of the last `mem` inputs and targets it was given (the current input is already included for the move). Centering runs over everything the filter was given, for any memory size and through any mix of run and adapt, until clear_memory, which forgets all samples and nothing else.",
 ["inputs", "histories"], "every sample history, memory size, size and parameter set, including histories that wrap the memory several times",
 "One test: one run of 100 samples with memory of 100, so the memory never wraps and no other size or adapt is exercised.",
 f("ocnlms") + [FB], [("memory read, write and index", "padasip/filters/ocnlms.py:read_memory, update_memory_x, update_memory_d, move_memory")],
 [("mem_x, mem_d, mem_idx, mem_empty", "ring memory of inputs and targets", "padasip/filters/ocnlms.py")], ["filter.w", "predict()", "return values of run"])

prop("F08", "Predicting never changes a filter",
 "Any number of predict calls, with any inputs and at any point between other calls, leaves every later output, error and weight of every filter exactly as if the calls had not been made. Repeating a predict without adapting in between returns the same value.",
 ["histories"], "every history of run and adapt calls and every way to insert predict calls into it, for every filter type",
 "No test calls predict directly, let alone between adaptations.",
 ALLF, [("predict", FB + ":AdaptiveFilter.predict"), ("own predict of OCNLMS", "padasip/filters/ocnlms.py:predict")], [("all filter state", "must not move on predict", FB)], ["filter.w", "later predict and run results"])

prop("F09", "Every way to create a filter gives the same filter",
 "The class, AdaptiveFilter(model, n, ...) and get_filter(model) give equally behaving filters for all fifteen model names in any letter case, filter_data(d, x, model, ...) equals creating the filter with the width of x (a given n is ignored) and running it, and every filter can be created from its size alone, omitted parameters taking their published defaults. An unknown model name, or AdaptiveFilter without n, raises ValueError.",
 ["configurations", "inputs"], "every model name and spelling, every subset of the parameters, every data",
 "The tests create filters by class only; the factories, names and most defaults are never used.",
 [FI] + ALLF, [("FILTERS table", FI), ("constructor signatures", "padasip/filters/*.py:__init__")], [], ["AdaptiveFilter, filter_data, get_filter, Filter* classes"])

prop("F10", "Starting weights are exactly what was asked for",
 "w=\"zeros\" starts from zeros, w=\"random\" (the default) from size n draws of zero mean and 0.5 standard deviation from NumPy's global generator (reproducible by its seed, new for every filter), and an array-like of n numbers from a private float copy of these numbers. Any other string, a wrong length, two or more dimensions or non-numeric items raise ValueError.",
 ["inputs", "configurations"], "every filter type, size, weight specification and sequence of creations",
 "The tests only use \"random\" after one seed, \"zeros\" and ones.",
 [FB], [("init_weights", FB + ":AdaptiveFilter.init_weights")], [("w", "weights", FB)], ["filter.w right after creation"])

prop("F11", "Noise-free learning is stable inside the documented bounds",
 "When all targets come from one fixed weight vector, a sample never increases the distance of the weights from it for LMS with mu*|x|^2 <= 2, for NLMS with 0 <= mu <= 2 + 2*eps/|x|^2, and for AP with 0 <= mu <= 2. A filter (OCNLMS excepted) whose weights already reproduce every target keeps them for ever and reports zero errors.",
 ["inputs", "histories"], "every history of inputs, every target vector, every mu up to the bound",
 "No test checks convergence or stability at all.",
 [FB] + f("lms", "nlms", "ap"), [("learning rules", "padasip/filters/lms.py, nlms.py, ap.py"), ("error and update in run and adapt", FB)], [("w", "weights", FB)], ["filter.w", "weight history"])

prop("F12", "Pretrained run trains on the head for all epochs, then tests on the rest",
 "pretrained_run(d, x, ntrain, epochs) is the same as running the filter `epochs` times over the first floor(ntrain*N) samples and then once over the remaining ones, all with the same continuing filter. It returns the outputs, errors and weight history of the remaining samples and leaves the filter in the state after them.",
 ["inputs", "histories"], "every filter, length, ratio from 0 to 1, number of epochs and data",
 "pretrained_run is not called by any test.",
 [FB], [("pretrained_run", FB + ":AdaptiveFilter.pretrained_run")], [("all filter state", "carried through epochs", FB)], ["return values of pretrained_run", "filter.w"])

prop("F13", "Filters obey the symmetries of their definition",
 "For every filter, permuting the input features together with the starting weights permutes the weights and leaves outputs and errors alone, flipping the sign of a feature flips only its weight, and negating targets and starting weights negates outputs, errors and weights. AP of order 1 equals NLMS with eps=ifc, GNGD with ro=0 equals NLMS, and every VSLMS filter with ro=0 equals LMS.",
 ["inputs", "histories"], "every history, every permutation, every sign pattern, every filter",
 "A single fixed data set with distinguishable features cannot show a symmetry; no test compares two filters.",
 ALLF, [("learning rules", "padasip/filters/*.py")], [], ["return values of run", "filter.w"])

prop("F14", "A copy of a filter continues identically and independently",
 "A deep copy of a filter, or a pickled one (saved and loaded again), taken at any point of its history gives exactly the same results for the same later samples as the original. Whatever is done to one of the two never affects the other.",
 ["histories"], "every filter, every point of every history, every interleaving of later calls on original and copy",
 "No test copies or saves a filter.",
 ALLF, [("all state kept in instance attributes, none shared", FB)], [("all filter state", "per instance", FB)], ["filter.w", "predict and run results"])

prop("F15", "Filters follow the units of their data; linear ones obey superposition",
 "Filtering the same data in other units (targets multiplied by one factor, inputs by another, of any size and sign), with starting weights and parameters converted accordingly, gives the same outputs, errors and weights in the new units; no absolute threshold, rounding or constant is hidden in a filter. For LMS, NLMS, AP, RLS and OCNLMS the step of the weights is linear in the targets: outputs, errors and weights for a sum of two target series and starting weights are the sums of those for each.",
 ["inputs", "histories"], "every filter type and parameter set, every sample sequence, every pair of units, every change of targets and starting weights",
 ONE + " All data are of size one.",
 ALLF, [("learning rules", "padasip/filters/*.py:learning_rule"), ("adaptation loop", FB + ":AdaptiveFilter.run")], [("w", "adaptive weights", FB)], ["y, e, w returned by run", "predict()"])

prop("G01", "Arguments are neither modified nor kept",
 "No function or method of the library changes an array or list passed to it, read-only arrays work, and results never share memory with arguments. Refilling or overwriting an argument after the call (as in a real-time loop reusing one buffer) has no influence on anything later, for filters (samples, targets, starting weights), the MLP, detection, preprocessing and error measures alike.",
 ["inputs", "histories"], "every public entry point, every sequence of calls with every argument overwritten after every call",
 "Tests pass fresh arrays, look at one result and drop them.",
 ALLF + ["padasip/ann/mlp.py", "padasip/detection/le.py", "padasip/detection/elbnd.py", "padasip/detection/ese.py", "padasip/misc/error_evaluation.py", "padasip/preprocess/standardize.py", "padasip/preprocess/standardize_back.py", "padasip/preprocess/input_from_history.py", "padasip/preprocess/pca.py", "padasip/preprocess/lda.py"],
 [("copies at entry (np.array, np.copy)", "all modules"), ("private sample copy", FB + ":adapt, run")], [("last_x", "last input remembered by a filter", "padasip/filters/gngd.py, vslms_*.py")], ["arguments after the call", "later results"])

prop("G02", "Results depend on the numbers, not on how they are stored",
 "The same numbers give the same results whether passed as float64, float32, signed or unsigned integers of any width, contiguous, strided, reversed or Fortran-ordered arrays, and, where a series or sample is expected (filter samples and targets, starting weights, error measures, standardization, history matrix, learning entropy, labels), as lists or tuples. In particular small integer types never overflow or truncate.",
 ["inputs"], "every entry point, every small data set, every storage form that can hold the numbers exactly",
 "Tests use float64 arrays nearly everywhere.",
 [FB, "padasip/misc/error_evaluation.py", "padasip/preprocess/standardize.py", "padasip/preprocess/standardize_back.py", "padasip/preprocess/input_from_history.py", "padasip/preprocess/lda.py", "padasip/preprocess/pca.py", "padasip/detection/le.py", "padasip/detection/elbnd.py"],
 [("conversion to float64 at entry", FB + ":adapt, run; padasip/misc/error_evaluation.py:to_float")], [], ["all results"])

prop("G03", "Separate objects and calls never influence each other",
 "Filters and networks created separately behave, under every interleaving of calls on them and of threads each using its own object, exactly as if each were used alone; the same holds for concurrent calls of the preprocessing, detection and error functions, and for concurrent predict calls on one filter. Nothing is shared between instances, calls or threads.",
 ["schedules", "histories"], "every interleaving of operations on two objects; every thread schedule up to a preemption bound",
 "The tests are single-threaded and use one object at a time.",
 ALLF + ["padasip/ann/mlp.py", "padasip/detection/le.py", "padasip/detection/elbnd.py", "padasip/misc/error_evaluation.py", "padasip/preprocess/standardize.py", "padasip/preprocess/pca.py", "padasip/preprocess/lda.py"],
 [("no module or class level mutable state", "all modules"), ("instance attributes set in constructors", FB)], [], ["results of each object"])

prop("G04", "No hidden randomness or history",
 "Apart from w=\"random\", the creation of an MLP and its shuffling, nothing uses or advances NumPy's global random generator, and with that generator seeded equally every call sequence gives equal results, in the same process and in another one (with another hash seed too, up to the sign of LDA directions and rounding). Functions give the same result for the same arguments whatever was called before.",
 ["histories", "configurations"], "every entry point, every order of calls, every hash seed tried",
 "Each test makes one call after seeding; the LDA test fixes the hash seed.",
 ["padasip/filters/base_filter.py", "padasip/ann/mlp.py", "padasip/preprocess/lda.py", "padasip/detection/le.py", "padasip/detection/ese.py"],
 [("np.random used only in init_weights, Layer, NetworkMLP", "padasip/filters/base_filter.py, padasip/ann/mlp.py")], [], ["np.random.get_state()", "results"])

prop("G05", "Refused input raises ValueError and leaves the filter or network as it was",
 "Samples and targets of different lengths, samples of a wrong width, non-numeric items and ragged rows are refused by run, adapt, filter_data and pretrained_run with an exception (by run and filter_data: ValueError), and MLP train and test refuse wrong sizes with ValueError; MLP predict, run and update refuse inputs and targets of a wrong size and text. After a refused run, adapt, train, test, predict or update call the filter or network behaves exactly as if it had not been made. Error measures refuse series of different lengths, ELBND and get_mean_error unknown functions, ESE unknown methods, input_from_history a non-integer or non-positive size, and standardization non-numeric offset, scale or series, all with ValueError.",
 ["fault_sequences", "histories"], "every refused call inserted at every point of every history",
 "No test passes invalid input.",
 [FB, FI, "padasip/ann/mlp.py", "padasip/misc/error_evaluation.py", "padasip/detection/elbnd.py", "padasip/detection/ese.py", "padasip/preprocess/standardize.py", "padasip/preprocess/standardize_back.py", "padasip/preprocess/input_from_history.py"],
 [("checks before the loop", FB + ":run"), ("checks before the shift of AP memory", FB + ":AdaptiveFilterAP.adapt")], [("all filter state", "unchanged by refused calls", FB)], ["raised exception", "later results"])

prop("G06", "Everything but ESE works without SciPy",
 "When SciPy is not installed the library still imports and everything else works identically, while ESE raises ImportError when called. When SciPy is there, ESE works.",
 ["configurations"], "SciPy present, absent, or without the needed distribution; every entry point",
 "SciPy is installed where the tests run, and ESE has no test.",
 ["padasip/detection/__init__.py", "padasip/detection/ese.py"], [("guarded import", "padasip/detection/__init__.py")], [], ["import padasip", "pa.detection.ESE"])

prop("G07", "Using the library prints nothing and leaves the process as it found it",
 "Importing the library or any of its modules, and every call, accepted or refused, prints nothing to standard output or error (warnings apart), writes no files, and leaves the process-wide state untouched: NumPy's error handling and print options, warning filters, Python's own random generator, environment, directory, sys.path, locale, decimal context, hooks, logging, threads and open files. The user's settings of these do not change any result.",
 ["configurations", "histories"], "every entry point, accepted and refused calls, several user settings",
 "Tests look at return values only; what is left behind in the process is never looked at.",
 ["padasip/__init__.py", FI, FB, "padasip/ann/mlp.py", "padasip/detection/ese.py", "padasip/detection/le.py", "padasip/detection/elbnd.py", "padasip/preprocess/lda.py", "padasip/preprocess/pca.py", "padasip/misc/error_evaluation.py"],
 [("public entry points", "padasip/*/*.py")], [("process-wide state", "NumPy, warnings, generators, environment, directory, hooks", "outside padasip")], ["process state around every call", "stdout, stderr, working directory"])

prop("G08", "Filters, networks and functions run for ever in constant memory",
 "The memory held by a filter or a network is bounded by its size and by the longest single run, however many samples it was ever given, through any repeated sequence of run, adapt, predict, train, update and test calls; after a short run it holds no more than it did before a long one. Function calls (factories, preprocessing, detection, errors) leave nothing behind, however many are made and with whatever data.",
 ["histories"], "every filter and network, every repeated sequence of calls, histories of any length; every function",
 "The tests make at most one call on an object and never measure memory.",
 ALLF + ["padasip/ann/mlp.py", "padasip/detection/le.py", "padasip/detection/ese.py", "padasip/preprocess/lda.py", "padasip/preprocess/pca.py"],
 [("memories of fixed size", FB + ", padasip/filters/ocnlms.py"), ("history of the last run only", FB + ":run")], [("x_mem, d_mem, mem_x, mem_d, w_history", "fixed-size memories and the last run", FB)], ["bytes reachable from the object and from the modules of padasip"])

prop("G09", "An interrupted call leaves everything else as it was, and its object usable",
 "When a call of the library is interrupted at any point by an exception (KeyboardInterrupt, MemoryError), the arguments, other filters and networks, the results of all other functions and process-wide state (NumPy error handling, print options, warnings) are as if the call had not been made, and the exception reaches the caller. A repeated function call gives the result of an undisturbed one. An interrupted filter or network stays usable: the weights of a filter and of every layer of a network are those after a whole number of samples, and further predict, adapt, run, update and train calls work from them as usual.",
 ["crash_points", "histories"], "every call of every part of the library, every line of the library as point of interruption, every short history before it",
 "No test interrupts a call.",
 ALLF + ["padasip/ann/mlp.py", "padasip/detection/le.py", "padasip/detection/elbnd.py", "padasip/detection/ese.py", "padasip/misc/error_evaluation.py", "padasip/preprocess/pca.py", "padasip/preprocess/lda.py"],
 [("no module state is written by calls", "all modules"), ("weights replaced by one statement per sample", FB + ":run, adapt"), ("memory index moved by one assignment", "padasip/filters/ocnlms.py:move_memory")], [("w", "adaptive weights", FB), ("mem_idx", "memory index", "padasip/filters/ocnlms.py"), ("w", "layer weights", "padasip/ann/mlp.py")], ["filter.w", "later results"])

prop("D01", "Direct learning entropy is the standardized increment of each weight",
 "learning_entropy(w, m, order) without sensitivities returns for every sample k >= m and every weight (dw(k) - mean)/(std + 1e-10), where dw is the absolute difference of the given order between consecutive weight rows and mean and (population) std are taken over the m preceding samples k-m..k-1 only; samples k < m get 0. It holds for any window, order, number of weights and history.",
 ["inputs", "histories"], "every weight history, window size and order",
 "One data set, one window, one order, compared by one rounded sum.",
 ["padasip/detection/le.py"], [("window loop", "padasip/detection/le.py:learning_entropy")], [], ["return value of learning_entropy"])

prop("D02", "Multiscale learning entropy is the fraction of exceeded sensitivities",
 "With sensitivities alpha, learning_entropy returns for every sample k >= m the fraction, over all weights and all sensitivities, of cases with dw(k) > alpha * mean of dw over the m preceding samples; samples k < m get 0. The values are between 0 and 1, and do not depend on the order of the sensitivities or on the kind of sequence (list, tuple, array) that holds them.",
 ["inputs", "histories"], "every weight history, window size, order and list of sensitivities",
 "One data set and one list of two sensitivities, compared by one rounded sum.",
 ["padasip/detection/le.py"], [("sensitivity loop", "padasip/detection/le.py:learning_entropy")], [], ["return value of learning_entropy"])

prop("D03", "ELBND is the error times the weight increment of each sample",
 "ELBND(w, e, function) returns for every sample k the maximum (function=\"max\", the default) or the sum (\"sum\") over the weights of |w(k+1) - w(k)| * |e(k)|, and 0 for the last sample; the values are never negative and there is one per weight row. Any other function name raises ValueError.",
 ["inputs", "histories"], "every weight history, every error series, both functions",
 "One data set, function \"max\" only, compared by one rounded sum.",
 ["padasip/detection/elbnd.py"], [("increments, product and output function", "padasip/detection/elbnd.py:ELBND")], [], ["return value of ELBND"])

prop("D04", "ESE scores increments by the tail of their own recent past",
 "ESE(w, window, pot_method) returns one value per weight row, zero for the first `window` rows and otherwise the sum over the weights of -log10(p): p is 1 unless the weight's absolute increment exceeds the smallest of the k largest increments of the `window` preceding rows, and then it is 1e-20 plus the exceedance probability of the generalized Pareto distribution fitted to these k values with its location at the smallest. Here k is at least 1 and 10%, 30% or 35% of the window, its square root, decimal logarithm, or window^(2/3)/log10(log10(window)), rounded down, according to the method; values are finite and never negative.",
 ["inputs", "histories"], "every weight history, window and method",
 "ESE has no test; before the fixes it failed on every sample with an exceedance in this environment.",
 ["padasip/detection/ese.py"], [("peak selection", "padasip/detection/ese.py:pot"), ("window loop and fit", "padasip/detection/ese.py:ESE")], [], ["return value of ESE"])

prop("D05", "Novelty scores are causal, local and symmetric in the weights",
 "The scores of a weight history do not change when later rows are appended (for ELBND: except that of the last row), so they can be evaluated online; LE and ESE scores of a sample depend only on the increments of that sample and of its window, and are unchanged by adding a constant to, or negating, any weight over the whole history or by changing rows older than the window. Reordering the weights reorders direct LE columns and leaves all other scores alone.",
 ["inputs", "histories"], "every weight history, every cut, every older row, every permutation",
 "One data set per tool, compared by one rounded sum.",
 ["padasip/detection/le.py", "padasip/detection/elbnd.py", "padasip/detection/ese.py"], [("windows end before the sample", "padasip/detection/le.py, ese.py"), ("forward difference", "padasip/detection/elbnd.py")], [], ["return values of learning_entropy, ELBND, ESE"])

prop("D06", "Novelty scores do not depend on the units of weights and errors",
 "Multiplying any weight over its whole history by any non-zero factor changes neither multiscale LE, nor which samples ESE scores at all, nor direct LE (where the deviation of its window is large against the regularization). ELBND is proportional to the units of the weights and of the errors, does not depend on the signs of the errors, and its value for a sample depends on no other error.",
 ["inputs"], "every weight history and error series, every factor, for every weight alone or all of them",
 "One data set per tool with weights of size one.",
 ["padasip/detection/le.py", "padasip/detection/elbnd.py", "padasip/detection/ese.py"], [("comparison with sensitivity times mean", "padasip/detection/le.py"), ("increments times errors", "padasip/detection/elbnd.py"), ("threshold from the window", "padasip/detection/ese.py")], [], ["return values of learning_entropy, ELBND, ESE"])

prop("M01", "Error measures compute their definitions",
 "MAE is the mean of |e|, MSE the mean of e^2, RMSE its square root and logSE the vector 10*log10(e^2), where e is the single given series or the difference of two given series of the same length (also when the second one is a list, or numbers that happen to equal -1). get_mean_error selects MSE (default), MAE or RMSE by name for one or two series alike.",
 ["inputs"], "every series or pair of series of any length, every measure",
 "One or two hand-made series per measure; get_mean_error is never called.",
 ["padasip/misc/error_evaluation.py"], [("get_valid_error", "padasip/misc/error_evaluation.py:get_valid_error"), ("formulas", "padasip/misc/error_evaluation.py")], [], ["MAE, MSE, RMSE, logSE, get_mean_error"])

prop("P01", "Standardization and its inverse are exact inverses",
 "standardize(x, offset, scale) returns (x - offset)/scale element by element, taking the mean and the population standard deviation of x for whichever of the two is not given (a given 0 or 0.0 offset counts as given), so that with neither the result has zero mean and unit deviation. standardize_back(xs, offset, scale) returns xs*scale + offset, so each undoes the other for every offset and every non-zero scale.",
 ["inputs"], "every series, every offset, every non-zero scale, each given or not",
 "One call of each with one series; the keyword arguments of standardize and the round trip are never tested.",
 ["padasip/preprocess/standardize.py", "padasip/preprocess/standardize_back.py"], [("standardize", "padasip/preprocess/standardize.py"), ("standardize_back", "padasip/preprocess/standardize_back.py")], [], ["return values"])

prop("P02", "History matrix rows are the consecutive windows of the series",
 "input_from_history(a, n) returns len(a)-n+1 rows, row i being a[i]..a[i+n-1] in time order, for every n from 1 to len(a); with bias=True a last column of ones is appended to it and nothing else changes. The result is always a float matrix.",
 ["inputs"], "every series, every n from 1 to the length, with and without bias",
 "One series with n=4 compared by shape and mean; bias is never used.",
 ["padasip/preprocess/input_from_history.py"], [("window list and bias column", "padasip/preprocess/input_from_history.py:input_from_history")], [], ["return value"])

prop("P03", "PCA gives real, uncorrelated components in order of variance",
 "PCA(x, n) returns the (not centered) samples projected on n orthonormal directions: its columns are uncorrelated, their sample variances are the n largest eigenvalues of the sample covariance matrix in descending order (equal eigenvalues included), and n defaults to one less than the number of features. PCA_components(x) returns all these eigenvalues, real and in descending order; a permutation of the samples or a shift of the data does not change them.",
 ["inputs"], "every data matrix, every n, including repeated and zero eigenvalues",
 "One random matrix with well separated eigenvalues, compared by shape and mean.",
 ["padasip/preprocess/pca.py"], [("eigen decomposition and ordering", "padasip/preprocess/pca.py:PCA, PCA_components")], [], ["return values of PCA, PCA_components"])

prop("P04", "LDA gives the real discriminants and directions of class separation",
 "LDA_discriminants(x, labels) returns the eigenvalues of inverse(within-class scatter) * (between-class scatter), real and in descending order, and LDA(x, labels, n) the real projections of the samples on unit eigenvectors of the n largest ones, so that in each column with a positive discriminant the ratio of between- to within-class scatter is that discriminant; n defaults to one less than the number of features. Renaming the classes, reordering the samples, or passing labels as list or array, numbers or strings, changes nothing but signs.",
 ["inputs"], "every data matrix with regular within-class scatter, every labelling, renaming and order of samples",
 "One random data set, compared by rounded means, with the hash seed fixed.",
 ["padasip/preprocess/lda.py"], [("scatter matrices and ordering", "padasip/preprocess/lda.py:LDA_base, LDA, LDA_discriminants")], [], ["return values of LDA, LDA_discriminants"])

prop("P05", "Preprocessing and error measures follow units and offsets of their data",
 "MAE and RMSE are proportional to the units of the errors, MSE to their square, logSE shifts by 20*log10 of the factor; all are symmetric in their two series, do not depend on a common offset or the order of samples, and mean measures of parts add up. standardize does not depend on units or offset of the series. History matrices follow units, offsets, reversal and cutting of the series. Principal components follow a common factor and do not depend on signs, order or rotation of the features or the order of samples; discriminants do not depend on shift, units or any regular mixing of the features, and LDA follows a common factor. Components asked for do not depend on how many are asked for.",
 ["inputs"], "every series and data matrix, every factor, shift, order and mixing",
 "One data set per function with values of size one.",
 ["padasip/misc/error_evaluation.py", "padasip/preprocess/standardize.py", "padasip/preprocess/standardize_back.py", "padasip/preprocess/input_from_history.py", "padasip/preprocess/pca.py", "padasip/preprocess/lda.py"],
 [("formulas", "padasip/misc/error_evaluation.py"), ("eigen decompositions", "padasip/preprocess/pca.py, lda.py")], [], ["return values"])

prop("N01", "MLP prediction is the forward pass, the same through predict, run and test",
 "For every architecture (hidden layers, inputs, outputs, sigmoid or tanh) predict returns the linear output layer applied to [1, hidden activations], each hidden layer being the activation of its weights times [1, its inputs]; run returns exactly these values row by row and test returns targets minus these values. None of them changes the weights, and results do not depend on what was predicted before.",
 ["inputs", "configurations", "histories"], "every small architecture, every input, every sequence of predict, run and test calls",
 "The MLP has no test at all.",
 ["padasip/ann/mlp.py"], [("Layer.predict, NetworkMLP.predict, run, test", "padasip/ann/mlp.py")], [("x with leading 1", "layer input buffer", "padasip/ann/mlp.py")], ["predict, run, test"])

prop("N02", "MLP training is predict-and-update over all samples in every epoch",
 "train(x, d, epochs) makes, in every epoch, exactly one predict and one update per sample in the given order, and returns the errors before each update in that order and for each epoch the sum of its squared errors divided by the number of samples. With shuffle=True every epoch still uses every (input, target) pair exactly once, in an order drawn anew for every epoch.",
 ["inputs", "histories", "configurations"], "every small data set, architecture, number of epochs, and order drawn by the shuffle",
 "The MLP has no test at all; before the fixes the last sample of each epoch was missing in the returned MSE.",
 ["padasip/ann/mlp.py"], [("epoch loop", "padasip/ann/mlp.py:NetworkMLP.train")], [], ["e and MSE returned by train", "predict after train"])

prop("N03", "MLP update is one gradient step of the squared error",
 "update(d) returns d minus the last prediction and moves every weight of every layer by its learning rate (the given mu, or with \"auto\" the number of nodes feeding the layer to the power -0.5) times the negative gradient of half the squared error of the last predicted input, all layers at once from the weights before the update. It holds for any number of hidden layers, inputs and outputs and both activations.",
 ["inputs", "configurations", "histories"], "every small architecture, every input and target, every history of predict and update calls",
 "The MLP has no test at all; before the fixes all layers but the last hidden one followed a wrong gradient.",
 ["padasip/ann/mlp.py"], [("Layer.update, NetworkMLP.update", "padasip/ann/mlp.py")], [("w", "layer weights", "padasip/ann/mlp.py")], ["network weights after update", "predict after update"])

prop("N04", "A new network has the sizes, rates and fresh random weights asked for",
 "A new network has one layer per item of `layers` plus the output layer, each with the asked number of nodes and one more weight per node for the bias; all weights are independent draws from NumPy's global generator scaled by the number of inputs of the layer to the power -0.5, each draw used once, so two networks never share weights; every layer learns with the given mu, or with \"auto\" at the rate of its number of inputs to the power -0.5. A learning rate that is neither \"auto\" nor a number raises ValueError.",
 ["configurations", "histories"], "every list of hidden layers, number of inputs and outputs, activation and learning rate, any number of networks made in a row",
 "The MLP has no test at all.",
 ["padasip/ann/mlp.py"], [("Layer.__init__, NetworkMLP.__init__", "padasip/ann/mlp.py")], [("w", "layer weights", "padasip/ann/mlp.py"), ("mu", "learning rates", "padasip/ann/mlp.py")], ["network weights after creation", "weights after one update"])

prop("N05", "A copy of a network continues identically and independently",
 "A deep copy of an MLP, or a pickled one (saved and loaded again), taken at any point of its history (also between predict and update) gives exactly the same results for the same later calls as the original. Whatever is done to one of the two never affects the other.",
 ["histories"], "every architecture, every point of every history, every interleaving of later calls on original and copy",
 "The MLP has no test at all.",
 ["padasip/ann/mlp.py"], [("all state kept in instance attributes, none shared", "padasip/ann/mlp.py:Layer, NetworkMLP")], [("w", "layer weights", "padasip/ann/mlp.py"), ("x, y", "last input and output of a layer", "padasip/ann/mlp.py")], ["network weights", "predict, run, test, train, update results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for p in P:
        fh.write(json.dumps(p) + "\n")
print(len(P), "properties")
