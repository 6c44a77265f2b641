"""Properties and what their checks claim. tools/gen.py writes properties.jsonl and MANIFEST.json from this."""
MC = "model_checking"
P = []
META = {}
NA = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, level, note, bounds, rule="", assumptions=(), variants=("mc",)):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}})
    META[id] = dict(level=level, bounds=bounds, rule=rule, assumptions=list(assumptions), variants=list(variants), technique=technique, note=note)

OMPA = ["x86-64, sequentially consistent interleavings of instrumented memory accesses (no weak-memory reorderings)", "the OpenMP runtime is replaced by a controlled one implementing the same ABI; static and dynamic worksharing as in libgomp", "armadillo/OpenBLAS internals run single-threaded"]
MPIA = ["MPI point-to-point and collectives as implemented by the in-process model of the MPI standard (non-overtaking, buffered or synchronous sends, wildcard matching nondeterministic)"]

prop("C01", "Multi-threaded calculation gives the same answer as single-threaded",
     "For every algorithm that offers OpenMP execution, choosing it changes only how long the calculation takes: fitting, prediction, bandwidth and variable selection, summary statistics and discriminant results equal those of the serial calculation up to rounding, whatever the number of threads, the number the runtime actually grants, and the order in which the threads run. A calculation that fails serially fails with OpenMP too, by the same kind of exception, never by ending the process.",
     ["schedules", "configurations"], "every team size from 1 to the requested number (including more threads than observations), every order of the threads of a team, every interleaving with a bounded number of preemptions at accesses to memory that two threads share, for a table of configurations of every algorithm",
     "The tests run one OpenMP configuration per algorithm on one large data set with loose tolerances and whatever schedule the machine produces; race windows, per-thread partial results and small teams are never controlled.",
     ["src/gwmodelpp/GWRBasic.cpp", "src/gwmodelpp/GTWR.cpp", "src/gwmodelpp/GWDR.cpp", "src/gwmodelpp/GWRMultiscale.cpp", "src/gwmodelpp/GWRRobust.cpp", "src/gwmodelpp/GWRGeneralized.cpp", "src/gwmodelpp/GWRLocalCollinearity.cpp", "src/gwmodelpp/GWSS.cpp", "src/gwmodelpp/GWDA.cpp", "include/gwmodelpp/IParallelizable.h"],
     [("per-thread accumulators summed after the parallel loop, results written to disjoint rows", "*Omp() members of every algorithm")],
     "stateless model checking of the real OpenMP code under a controlled runtime, all team sizes and thread orders, preemption-bounded interleavings", MC,
     "Every schedule within the bound is executed on the real code (compiled with access instrumentation, OpenMP runtime replaced by a controlled scheduler) and compared with the serial result. Assumes sequential consistency and the stated data sets.",
     "interleavings: n<=24, p<=4, teams 1..min(T,4) in all orders and T>n, <=1-2 deviations (thorough 2-3), per-case cap reported; wide tables of ~13700 data sets and settings (n<=101): two team sizes, first and last thread order", assumptions=OMPA)
prop("C02", "Distributed calculation gives the single-process answer and always ends",
     "For the algorithms that can distribute their work over message-passing processes, the root process ends with the same coefficients, standard errors, hat-matrix statistics, diagnostics and selected bandwidths and variables as a single-process run, for every number of processes, including more processes than observations. No process waits forever, whatever order messages arrive in and whether or not sends are buffered, and when a local regression fails, every process reports the failure.",
     ["schedules", "configurations", "fault_sequences"], "every number of processes 1..5, both buffered and synchronous sends, every matching of messages, each with calibration and selections enabled or not, plain and with threads inside each process",
     "The message-passing tests need mpirun with a fixed process count and are not part of the reliable suite; message order, unequal splits, surplus processes and failures are never exercised.",
     ["src/gwmodelpp/GWRBasic.cpp", "src/gwmodelpp/GWRMultiscale.cpp", "include/gwmodelpp/utils/armampi.h", "include/gwmodelpp/IParallelizable.h"],
     [("work range per worker, collection of partial results by the root, broadcast of the combined result", "GWRBasic fitMpi / MPI criteria, GWRMultiscale MPI criteria, armampi mpi_mul")],
     "stateless model checking of the real MPI code: all ranks as fibers under an in-process MPI with exhaustive message matching", MC,
     "All ranks run the real code in one process on an MPI stand-in that enumerates wildcard matches and send modes and reports deadlock, truncation and leftover messages. Assumes the stand-in implements MPI semantics.",
     "arrival orders: np 1..5, n<=12, p<=4; wide tables of ~2200 data sets and settings (n<=101): two of 2..7 processes each in the default order, both send modes", assumptions=MPIA)

ENUM = "exhaustive enumeration of a bounded configuration space, every execution of the real code compared with an independent executable specification"
DATA = ["the data sets of the enumeration are fixed families (seeded generators, grids, lines, duplicates, far points); other data are not covered", "comparisons allow rounding (relative 1e-6 .. 1e-8)"]
def enum(id, title, statement, over, qtext, why, files, mech, bounds, note="", tech=ENUM, assumptions=DATA, variants=("mc",)):
    prop(id, title, statement, over, qtext, why, files, mech, tech, MC, note or "Every configuration of the table runs the real code, serially and (where offered) with a controlled OpenMP team, and is compared with a specification written from the published formulas. Bounded by the table of data sets and configurations.", bounds, assumptions=assumptions, variants=variants)
G = "src/gwmodelpp/"
W = G + "spatialweight/"
prop("C03", "A requested cancellation stops the calculation cleanly and promptly",
     "Once the application's progress interface starts to report that stopping is requested (and keeps reporting it), a running fit, prediction, bandwidth or variable selection, summary, principal component or multiscale calculation, serial or with OpenMP, returns normally and reports the terminated status. What it returns has the usual dimensions, a bandwidth in force is the configured or a properly selected one, and at most the local models already begun are finished afterwards. Calculations ask for cancellation at least once per local model, apart from the inner iterations of a single generalized linear or initial multiscale regression and discriminant analysis, which never asks.",
     ["fault_sequences", "schedules"], "the request arriving at every single query of every calculation in a table, serially and with two and three threads in both thread orders",
     "The tests cancel at a few hand-picked stages; the point of cancellation ranges over every query of every calculation.",
     ["include/gwmodelpp/Logger.h", G + "GWRBasic.cpp", G + "GTWR.cpp", G + "GWRMultiscale.cpp", G + "GWSS.cpp", G + "GWPCA.cpp"],
     [("stop queries inside every local-model loop and early returns after each stage", "GWM_LOG_STOP_* uses in every algorithm")],
     "exhaustive injection of the cancellation at every query point of the real code, all listed thread orders", MC,
     "Every query index of every listed calculation is tried as the moment the request arrives; status, shapes, bandwidth and the work done afterwards are checked.",
     "~220 calculations, n<=41, serial and teams of 2 and 3 in two orders, every query index", assumptions=["the request persists; one-shot requests are outside the property"])
enum("C04", "Automatic bandwidth selection returns the best candidate it evaluated",
     "Whatever values the criterion takes, automatic bandwidth selection ends, evaluates by golden-section search only bandwidths between its lower and upper bound (whole neighbour counts for adaptive ones), returns one whose criterion is the smallest of all it evaluated, and reports exactly the finite evaluations with their criterion in order of bandwidth. A selection that is stopped keeps the configured bandwidth, and one whose first candidates cannot be evaluated raises an error instead of returning a bandwidth. In every regression that offers it, the criterion evaluated is the defined one and the bandwidth found is the one then used.",
     ["inputs", "configurations"], "every sequence of criterion answers (better than all, equal to the best, worse than all, failing, stopped) down to a depth, over adaptive and fixed ranges including empty and tiny ones; and all bandwidth selections of a table of regressions, serial, OpenMP and distributed",
     "Tests look at one smooth criterion per algorithm; the search is a decision procedure over all possible criterion shapes, including ties, failures and stops.",
     [G + "BandwidthSelector.cpp", "include/gwmodelpp/BandwidthSelector.h", G + "GWRBasic.cpp"], [("golden-section search with rounding to whole neighbours", "BandwidthSelector::optimize"), ("criteria offered to the search", "bandwidthSizeCriterion* of every algorithm")],
     "answer sequences to depth 9 (thorough 12) over 5 kernels and 36 ranges; ~9000 real selections",
     "The real selector is driven by a criterion oracle that enumerates every sequence of answers lazily, so every decision path of the search down to the depth is executed and compared with a golden-section model; real selections are compared with criteria computed by definition.", tech="explicit exploration of all decision paths of the real search against an enumerating criterion oracle, with a golden-section model run on the same answers", assumptions=["beyond the enumerated depth the criterion is answered 'worse'", "answers differ by more than the search tolerance or are equal"])
enum("C05", "Forward variable selection follows the greedy rule and explains itself",
     "Forward selection starts from the smallest model; each round fits the current model extended by every remaining variable and goes on with the one whose criterion is smallest, until every variable is in. The report holds every model tried with its own criterion, round by round from worst to best, and the selected model is the last reported one that improves on its predecessor by at least the threshold. A stopped selection keeps all variables, and the real regressions use the criterion of the candidate models and continue with the selected variables.",
     ["inputs", "configurations"], "every sequence of criterion answers from small value sets (ties, infinite values and stops included) over up to five candidates, several thresholds and variable numberings; and all variable selections of a table of regressions",
     "Tests have one data set whose best model is known; the rule must hold for every order in which candidates can win.",
     [G + "VariableForwardSelector.cpp", "include/gwmodelpp/VariableForwardSelector.h", G + "GWRBasic.cpp", G + "GWDR.cpp"], [("greedy loop, threshold rule and the list of evaluated models", "VariableForwardSelector::optimize, indepVarsCriterion")],
     "up to 5 candidates, all criterion tables over 2 to 5 values, >1 million searches; ~3000 real selections",
     "The real selector is driven by exhaustively enumerated criterion answers and compared with the greedy rule executed independently.", tech="explicit exploration of all decision paths of the real search against an enumerating criterion oracle", assumptions=["criterion values from small sets"])
enum("C06", "Kernel weights follow their formulas for every bandwidth and distance",
     "For each of the five kernels the weight at distance d is the documented function of d and the bandwidth: Gaussian exp(-d^2/(2b^2)), exponential exp(-d/b), bisquare (1-(d/b)^2)^2, tricube (1-(d/b)^3)^3 and boxcar 1, the last three for d<b and 0 from b on. A fixed bandwidth is used as it is; an adaptive one takes the distance to the k-th nearest point (the point itself counts), interpolating between whole counts for fractional k and scaling the largest distance by k/n when k exceeds the number of points. Weights lie between 0 and 1, fall with distance, and do not depend on the order of the points.",
     ["inputs", "configurations"], "all distance vectors over a small grid of values up to length 5 (ties and zeros included), all kernels, fixed bandwidths and all whole and fractional adaptive ones below, at and above the number of points",
     "Tests touch a kernel through one data set with one bandwidth; boundary distances, ties and bandwidths above n never occur there.",
     ["include/gwmodelpp/spatialweight/BandwidthWeight.h", W + "BandwidthWeight.cpp", W + "Weight.cpp"], [("kernel functions and the adaptive bandwidth distance", "BandwidthWeight")],
     "vectors of length 1..6 over 4-5 distance values, >30k configurations", "Every distance vector of the bounded grid is weighted by the real code and compared with the formula.")
enum("C07", "Distances obey their metric and the weighting uses them unchanged",
     "Projected coordinates give the Euclidean distance, geographic ones the ellipsoidal distance in kilometres, the Minkowski metric of order p (with rotation angle) the documented p-norm including p=1, 2 and the limit, the one-dimensional metric the absolute difference, and the space-time metric the documented combination of space and time. Distances are non-negative, zero on the point itself and symmetric, and largest and smallest distance over all pairs equal the extremes of the metric itself.",
     ["inputs", "configurations"], "all point sets over small grids and layouts, every metric, order, angle and balance parameter of a table, every focus point",
     "Tests evaluate one or two metrics on one data set; orders, rotation, degenerate layouts and the extremes over all pairs are not compared with a definition.",
     [W + "CRSDistance.cpp", W + "MinkwoskiDistance.cpp", W + "CRSSTDistance.cpp", W + "OneDimDistance.cpp", W + "Distance.cpp"], [("distance vector of a focus, maximum and minimum over all pairs", "Distance subclasses")],
     "1360 combinations of layout, metric and parameters, n<=12, every focus", "Every combination runs the real metric for every focus and is compared with the definition.", assumptions=DATA + ["longitudes within [-180,180], no antipodal pairs"])
enum("C08", "Weighting schemes behave as independent values",
     "Distances, bandwidth weights and spatial weights can be copied, assigned, cloned, replaced piecewise (also by their own parts or copies of themselves) and destroyed in any order: every copy keeps type, parameters and computed weights of its source at the time of copying, changing one never changes another, and no memory is leaked, read after release or released twice.",
     ["programs", "histories"], "every sequence of copy, assignment, cloning, component replacement, self-assignment, use and destruction up to a depth over two or three objects with every kind of distance and weight",
     "Tests make one copy of one kind; ownership defects need particular sequences.",
     [W + "SpatialWeight.cpp", "include/gwmodelpp/spatialweight/SpatialWeight.h", W + "CRSSTDistance.cpp", "include/gwmodelpp/spatialweight/Distance.h"], [("deep copies in constructors, assignment operators and setters", "SpatialWeight, CRSSTDistance")],
     "all operation sequences up to depth 4-6 over 2-3 objects, 440k sequences, native and under address sanitizer",
     "Every operation sequence up to the depth is executed on the real classes against an abstract value model; a second run under AddressSanitizer detects memory errors.", tech="exhaustive exploration of all operation sequences up to a depth against an abstract model, repeated under AddressSanitizer", assumptions=["distance by explicit matrix file is a stub in this library and excluded"], variants=("mc", "asan"))
enum("C09", "Basic geographically weighted regression computes the defined estimates",
     "Each location's coefficients solve the weighted least squares problem with the weights of that location (own observation included); standard errors, fitted values, residual sum, hat matrix and its traces, effective numbers of parameters, AIC, AICc, R-squares and the stored coefficient matrices follow their definitions. With automatic selection the bandwidth minimises the leave-one-out or AICc criterion computed by its definition, and forward selection uses those criteria too.",
     ["inputs", "configurations"], "table of sizes, numbers of variables, layouts, metrics, kernels, adaptive and fixed bandwidths (boundaries included), with and without intercept, hat matrix and selections, serial, OpenMP and distributed",
     "Tests compare one data set with numbers recorded from an earlier version.", [G + "GWRBasic.cpp", G + "GWRBase.cpp", G + "SpatialMonoscaleAlgorithm.cpp"], [("local weighted least squares and diagnostics", "GWRBasic::fit*, CalcDiagnostic; bandwidth criteria")], "n<=101, p<=6, ~18000 configurations (thorough more seeds)")
enum("C10", "Space-time regression computes the defined estimates",
     "Geographically and temporally weighted regression solves each location's weighted least squares problem with weights from the combined space-time distance, and its standard errors, hat-matrix traces and diagnostics follow their definitions. Predicting at the observed locations repeats those estimates. Automatic bandwidth selection minimises the chosen criterion, and automatic choice of the space-time balance returns the balance a golden-section search for the largest R-squared gives.",
     ["inputs", "configurations"], "table of sizes, balances, angles, layouts, kernels and bandwidths, selections on and off, serial and OpenMP", "Tests compare one data set with recorded numbers.",
     [G + "GTWR.cpp", W + "CRSSTDistance.cpp"], [("local regressions with space-time weights; criterion search", "GTWR::fit*, criteria, lambda search")], "n<=257, p<=12, ~12500 configurations, fits and predictions at the observations")
enum("C11", "Density-weighted regression computes the defined estimates",
     "Geographically weighted density regression multiplies the kernel weights of all coordinate dimensions, solves each location's weighted least squares problem with them, and derives standard errors, hat-matrix traces and diagnostics from it by their definitions. Selecting bandwidths runs a simplex search on the chosen criterion as defined, started from the configured ones, and selecting variables uses the AICc of the candidate models.",
     ["inputs", "configurations"], "table of sizes, one to three dimensions, kernels, bandwidths and selections, serial and OpenMP", "Tests compare one data set with recorded numbers.",
     [G + "GWDR.cpp"], [("product of dimension weights, local regressions, multi-dimensional bandwidth search", "GWDR, GWDRBandwidthOptimizer")], "n<=14, p<=4, ~9000 configurations, kernels and bandwidth kinds of their own per dimension; criterion also probed directly at five bandwidth vectors")
enum("C12", "Multiscale regression backfits as defined",
     "Multiscale regression starts from the ordinary geographically weighted estimates, re-estimates the terms in turn on partial residuals with their own bandwidths, stops when the chosen convergence measure falls to the threshold or the iteration limit is reached, and returns coefficients, hat-matrix statistics and diagnostics of that iteration; bandwidths to be selected are chosen again in every iteration by their criterion until they stay unchanged for the configured number of times.",
     ["inputs", "configurations"], "table of sizes, terms, bandwidth initialisations, criteria, thresholds, iteration limits, centring and hat matrix, serial, OpenMP and distributed", "Tests check one data set and converge after a given number of iterations; the rules for stopping and re-selection are not observable there.",
     [G + "GWRMultiscale.cpp"], [("backfitting loop, convergence measure, bandwidth re-selection", "GWRMultiscale::backfitting, fitVar")], "n<=120, p<=11, <=14 iterations, ~3600 configurations, terms with kernels, metrics, criteria, thresholds and centring of their own")
enum("C13", "Robust regression down-weights or filters outliers as defined",
     "Robust geographically weighted regression fits the basic model, derives observation weights from the residuals — removing observations whose studentised residual exceeds 3, or iterating the documented continuous down-weighting to convergence — and refits with them; coefficients, standard errors, hat-matrix statistics and diagnostics are those of the final weighted fit.",
     ["inputs", "configurations"], "table of sizes, layouts with none, one or several outliers, kernels, bandwidths and both variants, serial and OpenMP", "Tests compare one data set with recorded numbers.",
     [G + "GWRRobust.cpp"], [("residual weights, filtering rule and iteration", "GWRRobust::robustGWRCaliFirst/Second")], "n<=40, p<=3, ~6100 configurations")
enum("C14", "Generalized regression reaches the defined local and global models",
     "Generalized geographically weighted regression for Poisson and binomial responses performs iteratively reweighted least squares with each location's weights until the configured tolerance or iteration limit; coefficients, standard errors, hat-matrix traces, deviances, AIC, AICc and pseudo R-square of the local model, and those of the global generalized linear model, follow their definitions, as do the bandwidth criteria.",
     ["inputs", "configurations"], "table of families, sizes, layouts, kernels, bandwidths, tolerances, iteration limits and selections, serial and OpenMP", "Tests compare one data set per family with recorded numbers.",
     [G + "GWRGeneralized.cpp", G + "GeneralizedLinearModel.cpp"], [("local and global IRLS", "GWRGeneralized::fit, poisson/binomial weights; GeneralizedLinearModel::fit")], "n<=120, p<=8, ~7900 configurations")
enum("C15", "Locally compensated ridge regression computes the defined estimates",
     "Each location solves a ridge regression with its weights; the ridge parameter is the given one or, where adjustment is on and the local condition number exceeds the threshold, the one that brings the condition number to the threshold. Coefficients, hat-matrix traces and diagnostics follow their definitions, and bandwidth selection minimises the leave-one-out criterion.",
     ["inputs", "configurations"], "table of sizes, collinear and ordinary layouts, ridge parameters, thresholds, kernels and bandwidths, serial and OpenMP", "Tests compare one data set with recorded numbers.",
     [G + "GWRLocalCollinearity.cpp"], [("ridge solution and adjustment", "GWRLocalCollinearity::fit*, ridgelm")], "n<=26, p<=4, ~14800 configurations")
enum("C16", "Scalable regression optimises the criterion it defines",
     "Scalable geographically weighted regression builds its polynomial kernels from the nearest neighbours (powers of exp(-(d/b)^2) for the Gaussian and exp(-d/b) for the exponential kernel, b following from the median distance of the neighbours), chooses scale and penalty so that the leave-one-out or AICc criterion is as small as its documented search finds, and returns the coefficients, traces and diagnostics belonging to the scale and penalty it reports.",
     ["inputs", "configurations"], "table of sizes, polynomial orders, kernels, neighbour counts below, at and above the number of points, both criteria", "Tests compare one data set with recorded numbers.",
     [G + "GWRScalable.cpp"], [("pre-computed polynomial sums, two-parameter search, final fit", "GWRScalable::prepare, optimize, fitSerial")], "n<=80, p<=6, ~2700 configurations, the search itself replicated for n<=30", assumptions=DATA + ["the leave-one-out sums include the own observation's kernel contribution as implemented"])
enum("C17", "Local summary statistics follow their definitions",
     "Local means, variances, standard deviations, skewness and coefficients of variation, medians, interquartile ranges and quantile imbalances, and pairwise local covariances, Pearson and Spearman correlations use each location's weights by their definitions, in the requested mode and pairing of variables, whichever order mode and execution type are configured in.",
     ["inputs", "configurations"], "table of sizes, numbers of variables, layouts, kernels, bandwidths, modes and quantiles, serial and OpenMP", "Tests compare one data set with recorded numbers.",
     [G + "GWSS.cpp"], [("weighted moments, quantiles and correlations", "GWSS::GWAverage*, GWCorrelation*")], "n<=40, p<=4, ~18200 configurations")
enum("C18", "Local principal components are those of the weighted data",
     "Each location's loadings, component variances and proportions are those of the principal component analysis of its weighted, centred data (up to sign), and component deviations belong to the same location as their loadings.",
     ["inputs", "configurations"], "table of sizes, numbers of variables and components, layouts, kernels and bandwidths", "Tests compare one data set with recorded numbers.",
     [G + "GWPCA.cpp"], [("weighted decomposition per location", "GWPCA::solveSerial, wpca")], "n<=30, p<=5, ~8800 configurations")
enum("C19", "Local discriminant analysis classifies by its scores",
     "Each observation's local group means, covariances and priors (its own value left out, local or global as configured) give a discriminant score per group, linear or quadratic; the predicted group is the one with the best score, membership probabilities are derived from all scores and sum to one, the entropy follows from them, and the correct rate is the share of observations predicted as observed.",
     ["inputs", "configurations"], "table of sizes, numbers of groups and variables, linear and quadratic, local and global moments, layouts, kernels and bandwidths, serial and OpenMP", "Tests compare one data set with recorded numbers.",
     [G + "GWDA.cpp"], [("weighted moments, scores, probabilities and entropy", "GWDA::discriminantAnalysis*, wlda, wqda")], "n<=24, p<=3, 2-4 groups, ~14500 configurations", assumptions=DATA + ["the quadratic score's determinant term is taken as implemented"])
enum("C20", "Prediction evaluates the local models at the given locations",
     "Predicting with the basic, robust, generalized, locally compensated and scalable regressions gives, for each requested location, the coefficients of the local model whose weights are measured from that location to the training points; the answer for one location depends neither on the other locations, their number (one, fewer or more than observations) nor their order, repeats when asked again, and at an observed location with a plain weighting scheme equals the fitted coefficients.",
     ["inputs", "configurations", "histories"], "every subset, order and repetition pattern of small sets of locations (including observed ones), kernels, bandwidths and algorithms, before and after fitting, serial and OpenMP", "Tests predict at the observed points only, where an off-by-one location or wrong distance set can go unnoticed.",
     [G + "GWRBasic.cpp", G + "GWRRobust.cpp", G + "GWRGeneralized.cpp", G + "GWRLocalCollinearity.cpp", G + "GWRScalable.cpp"], [("distances from prediction locations to training points", "predict, predictSerial, predictOmp")], "n<=101, up to 110 locations, ~20000 configurations")
prop("C22", "A local problem without solution is never passed off as a result",
     "If a local regression cannot be solved, the fit, prediction or selection in which it occurs either raises an exception the caller can catch, serially and with OpenMP, or its failure has no influence: everything then returned equals the failure-free result, except that a selection may pass over the candidate that failed. A selection never returns a bandwidth, variable set or criterion list that rests on a failed candidate, and data without any solvable local model always raise an exception.",
     ["fault_sequences", "schedules", "inputs"], "each single matrix factorisation of a calculation failing in turn, and all from each one on, for every listed algorithm and selection, serial and OpenMP, plus data sets in which no local model has a solution",
     "Tests use well-conditioned data only; the numerical failure paths are never executed.",
     [G + "GWRBasic.cpp", G + "GTWR.cpp", G + "GWDR.cpp", G + "GWRGeneralized.cpp", G + "GWRMultiscale.cpp", G + "GWRScalable.cpp"], [("exceptions of the solver caught per location and turned into a failure or an infinite criterion", "try/catch blocks around inv_sympd in every algorithm")],
     "exhaustive fault injection at every factorisation of the real code, serial and all listed thread orders", MC,
     "Every factorisation index (for very long runs all in the first and last 60 and an evenly spaced subset between) is failed once and lastingly; the outcome is compared with the fault-free run.",
     "n<=14, p=3..6, every factorisation index", assumptions=["solver failures are those LAPACK reports; inverses of order 4 and less are closed-form and covered by singular data only"])
prop("C21", "An algorithm object keeps nothing from earlier calculations",
     "Whatever an object has calculated before — other data, settings, modes, selections, predictions, or calculations that were stopped — configuring it afresh and calculating gives exactly the results, figures and status a newly created object gives. Fitting again without changing anything gives the same results again, and predicting in between does not change what a later fit returns.",
     ["histories"], "every sequence of up to three (thorough four) calculations drawn from an alphabet of phases per algorithm (other data, other settings, prediction, selection, stopped midway), each followed by the observed calculation on the same object, and every immediate repetition",
     "Tests create a fresh object per case; stale members, caches and statuses only show when an object is used again.",
     [G + "GWRBasic.cpp", G + "GWRRobust.cpp", G + "GWRGeneralized.cpp", G + "GWRLocalCollinearity.cpp", G + "GWRScalable.cpp", G + "GWRMultiscale.cpp", G + "GTWR.cpp", G + "GWDR.cpp", G + "GWSS.cpp", G + "GWDA.cpp", G + "GWPCA.cpp"],
     [("members initialised at the start of fit, predict and run", "fit(), predict(), run() of every algorithm")],
     "exhaustive enumeration of operation histories on real objects up to a depth, each compared with a fresh object", MC,
     "All phase sequences within the depth run on one object of the real code; the last calculation is compared figure by figure with that of a fresh object.",
     "depth 3 (thorough 4) over 3-6 phases per algorithm", assumptions=DATA + ["a stopped calculation promises only status, shapes and bandwidth", "summary figures of the other mode may stay readable"])
prop("C23", "Progress reports describe the calculation truthfully and do not disturb it",
     "What the caller's progress monitor receives describes the calculation: counts between zero and the total of the pass, each pass stepping through every local model up to its end, stages announced before their progress, and every bandwidth, variable combination or parameter a search lists announced with its criterion, and nothing else. Errors are reported only when something failed, and (apart from locally compensated, generalized and multiscale regressions) whenever a local model fails. Neither the presence of a monitor nor the number or order of threads changes results or the set of reports, and calculating twice reports the same twice.",
     ["schedules", "configurations", "histories"], "a table of calculations and predictions of every algorithm with every team size and both thread orders, with and without an observer, once and twice, and with failing local models",
     "Tests install no monitor or ignore what it receives; progress from several threads is never looked at.",
     ["include/gwmodelpp/Logger.h", G + "GWRBasic.cpp", G + "GWRMultiscale.cpp", G + "GTWR.cpp", G + "GWDR.cpp", G + "GWRScalable.cpp"], [("progress, stage and criterion reports", "GWM_LOG_* uses in every algorithm")],
     "exhaustive enumeration of calculations, team sizes and thread orders of the real code, the complete report sequence of each judged against a model of admissible reports", MC,
     "The event trace of every listed execution is checked against the admissible-trace specification and against the search lists the object returns.",
     "~600 calculations (n<=101), teams 1..3 and n+1 in several orders", assumptions=DATA + ["failures on data with a zero column in locally compensated, generalized and multiscale regression are raised without a report"])
prop("C24", "Results depend on the settings in force, not on how they were made",
     "What an algorithm calculates is determined by the values its settings have when the calculation starts: the order in which they were made, repeating them, and values set earlier and overwritten make no difference, nor does asking for an execution type the algorithm does not offer. The execution type asked for is the one used. Settings report the value last set, a default that is reported is the one in force, and constructing with arguments equals setting them.",
     ["configurations", "histories"], "for every algorithm, all orders of its settings within two single moves of the usual one or its reverse and all orders of those that switch behaviour, every repetition, every overwritten setting of other configurations at every place (also in pairs), and every sequence of up to three (thorough four) setter calls against a record of last values",
     "Tests configure each algorithm in one order. Settings cache function pointers and derived values, so some orders can leave a stale combination that no single-order test shows.",
     [G + "GWRBasic.cpp", G + "GWRGeneralized.cpp", G + "GWSS.cpp", G + "GTWR.cpp", G + "GWDR.cpp", G + "GWRMultiscale.cpp", G + "GWRLocalCollinearity.cpp", "include/gwmodelpp/GWRBase.h"],
     [("setters that also choose the implementation of criterion, family, mode and execution type", "setParallelType, setBandwidthSelectionCriterion, setFamily, setGWSSMode")],
     "exhaustive enumeration of setter sequences on real objects, each followed by the calculation and compared with the canonical configuration; setter/getter sequences against an explicit-state record", MC,
     "About 190 thousand setter sequences run on the real classes, each compared with the canonical sequence or with an explicit record of the values in force.",
     "55 configurations, all orders within the stated distance; setter sequences to depth 3 (thorough 4)", assumptions=DATA + ["settings of multiscale regression per variable are made after the variables, which they are checked against", "multi-process execution types are covered by C02"])
enum("C25", "The same problem presented differently has the same solution",
     "Results describe the problem, not its presentation. Handing over the observations in another order reorders the results accordingly; handing over the covariates in another order reorders coefficients or figures. Turning, mirroring or moving the map changes nothing, nor does its unit of distance (fixed bandwidths converted); changing the unit of the response or of a covariate converts coefficients and errors and leaves fit statistics in place. This holds serially and with OpenMP, for results of selections too.",
     ["inputs", "configurations"], "all orders of six or seven observations and all orders within one (thorough two) exchanges plus all rotations of ten to fourteen, all orders of up to five covariates, quarter turns, mirrorings, shifts and changes of unit, for a table of configurations of every algorithm", "Tests use one data file as it is. A result that depends on which observation comes first, or on a sorted or particular layout, looks right on that file.",
     [G + "GWRBasic.cpp", G + "GTWR.cpp", G + "GWRScalable.cpp", G + "GWSS.cpp", G + "GWDA.cpp", G + "GWPCA.cpp", W + "BandwidthWeight.cpp"], [("loops over observations, neighbour searches, sorting", "fit, criteria, findNeighbours, findq, levels")], "~6800 configurations, ~160 thousand presentations (thorough more)",
     tech="exhaustive enumeration of the symmetry group of each problem (orders, motions, units) on the real code, results compared after applying the same transformation",
     assumptions=DATA + ["generic data: no ties between criteria or distances", "multiscale regression updates coefficients in the order of covariates and is compared under orders of observations only", "quadratic discriminant scores use a matrix norm that depends on units"])
enum("C26", "The validity check accepts exactly the complete, consistent configurations",
     "Asking an algorithm whether its configuration is valid never fails and changes nothing. The answer is yes exactly if what the calculation needs is there: coordinates, covariates and response with the same number of rows for regressions (summary statistics, discriminant and component analysis: coordinates and at least one variable; components: a positive number of them), a positive bandwidth for the basic, robust and space-time regression (a missing weighting scheme means no), a Gaussian or exponential kernel as well for the scalable one, one weighting per coordinate dimension for the density one, and for the multiscale one a setting per variable and, where the start bandwidth is given, one above 1 if adaptive and not negative if fixed. Per-variable settings of the wrong number are refused with a length error and leave the object as it was.",
     ["configurations", "inputs"], "every combination of present, missing and mismatching parts, bandwidths around every limit, kernels, adaptive and fixed, and, for multiscale regression, every assignment of start modes and bandwidths to up to three variables",
     "Tests call the check on complete configurations or two broken ones; the answer is a decision over all combinations of parts.",
     [G + "GWRBase.cpp", G + "GWRBasic.cpp", G + "GTWR.cpp", G + "GWDR.cpp", G + "GWRScalable.cpp", G + "GWRMultiscale.cpp", G + "GWSS.cpp", G + "GWPCA.cpp", G + "GWDA.cpp"], [("validity predicates and length-checked setters", "isValid of every algorithm, GWRMultiscale set* members")],
     "about 217 thousand configurations, every isValid answered twice", "Every combination is presented to the real class and the answer compared with an explicit decision table; what is observable of the object is compared before and after.",
     tech="exhaustive enumeration of the configuration space against an explicit decision table", assumptions=["the locally compensated, generalized regressions check the data parts only, as documented by their base class"])
prop("C27", "Separate objects can be used by separate threads at the same time",
     "An application may calculate with several algorithm objects in several threads, or start one calculation from inside another one's progress monitor: each gives exactly the results and reports it gives alone, whichever algorithms and settings are combined and however their steps interleave, as long as the objects are different. Algorithms, weightings and metrics share no changeable state.",
     ["schedules", "configurations"], "all ordered pairs of a table of calculations of every algorithm (and triples), every order, every interleaving with a bounded number of preemptions at accesses to memory both touch, and one calculation nested in every monitor call of another",
     "Tests run one calculation at a time.",
     [G + "GWRBasic.cpp", G + "GWRMultiscale.cpp", G + "GTWR.cpp", G + "GWDR.cpp", G + "GWSS.cpp", W + "BandwidthWeight.cpp", W + "CRSDistance.cpp", G + "Logger.cpp"], [("state lives in the objects; tables at namespace scope are only read", "members of every algorithm, kernel and name tables")],
     "stateless model checking of the real code: each thread runs one object under the controlled scheduler, which detects every memory granule two threads conflict on and explores the interleavings around it", MC,
     "If two threads never conflict on a granule, every interleaving is equivalent to the orders executed; otherwise interleavings are enumerated up to the preemption bound. Results are compared with those of the objects alone.",
     "about 2500 pairs, triples and nestings (one calculation started in each monitor call of another), n<=9, all orders; <=1 preemption (thorough 2) where conflicts exist", assumptions=["x86-64, sequentially consistent interleavings of instrumented memory accesses", "armadillo/OpenBLAS internals run single-threaded"])
prop("C28", "Results never depend on memory that was not written",
     "What a calculation returns, including one that was cancelled at any point or in which a local problem had no solution, is determined by its inputs: it does not depend on what the memory it uses held before, and nothing outside the memory of the data and results is touched. Repeating it gives the same figures and the same outcome.",
     ["inputs", "fault_sequences"], "a table of calculations of every algorithm, complete, cancelled at each query and with each factorisation failing, each with four different contents of all fresh memory and stack, serial and with several threads in two orders",
     "In a test process fresh memory is mostly zero, so a value that was never written looks right.",
     [G + "GWRBasic.cpp", G + "GWRMultiscale.cpp", G + "GTWR.cpp", G + "GWDR.cpp", G + "GWRScalable.cpp", G + "GWSS.cpp", G + "GWPCA.cpp", G + "GWDA.cpp"], [("matrices created before the loops that fill them, early returns after cancellation", "fit, criteria, predict, solve of every algorithm")],
     "exhaustive enumeration of cancellation points, failing factorisations and memory contents on the real code, executions with different memory contents compared figure by figure; the same table under an address sanitizer", MC,
     "Four fillings of all freshly allocated memory and of the stack (zero, not-a-number, huge, ordinary numbers) must lead to the same outcome for every plan of the table.",
     "n<=12, about 340 calculations, every query and factorisation index up to 24 per run (then both ends and an even subset; thorough 200)", assumptions=["four memory contents stand for all", "memory the runtime libraries allocate themselves is filled as well"], variants=("mc", "asan"))
