#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 meta.py  rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
Q = "quantfinlib/"
SIM = [Q + "sim/_base.py", Q + "sim/_bm.py", Q + "sim/_gbm.py", Q + "sim/_ou.py"]
KF = [Q + "train_test_split/kfoldpe.py", Q + "train_test_split/_base.py"]
WF = [Q + "train_test_split/walk_forward.py", Q + "train_test_split/_base.py"]
IND = [Q + "feature/indicators/" + f for f in ("_base.py", "_bands.py", "_macd.py", "_rsi.py")]
MIC = [Q + "feature/micro_structure/" + f for f in ("_price_sequences.py", "_strategic_trade_models.py", "_sequential_trade_models.py")]
CUS = [Q + "feature/structural_breaks/cusumtest.py"]
DIST = [Q + "distance/" + f for f in ("correlation.py", "information.py", "distance_matrix.py", "matrix_divergence.py")]
CLU = [Q + "clustering/hierarchical.py", Q + "clustering/metrics.py"]
COV = [Q + "math/cov.py"]

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note))


prop("C01", "K-fold test sets partition the data and never cut a time group",
     "For every input in which each fold can hold at least one complete time group, the test sets of time-aware K-fold cross-validation are consecutive, disjoint blocks of samples in time order that together contain every sample exactly once (in look-forward mode: every sample after the first block), and no time group is spread over two blocks. The blocks are the most equal division of the samples into K blocks (the first blocks take the remainder) with every boundary moved forward to the end of the time group it falls in. The reported number of splits equals the number of splits that are produced.",
     ["inputs", "configurations"], "all sample counts, group layouts (repeated, gapped, integer or datetime), fold counts, look-forward on/off",
     "Tests check pairwise disjointness on a few random groupings with about ten samples per group; they never check coverage, order, block sizes or groups as large as a fold.",
     KF, [("fold boundaries by equal division, then moved to group ends", KF[0])],
     "online reference-model monitor over generated group layouts", "every produced split is compared with a brute-force per-sample model")
prop("C02", "K-fold training sets leave out exactly test, purge and embargo periods",
     "Every training set produced by time-aware K-fold cross-validation contains exactly the samples outside the test set whose time group lies neither within the purge length after the last test group nor within the embargo length before the first test group (both limits inclusive, measured in time units for datetime groups); in look-forward mode it also contains no sample later than the test set. Training indices are sorted and unique. A split that would leave no training sample is refused with an error instead of being produced.",
     ["inputs", "configurations"], "all group layouts, purge and embargo lengths, fold counts, frequencies, look-forward on/off",
     "Tests assert counts of removed groups on a few dense groupings; exact membership at the inclusive limits, with gaps, repeated groups and datetime units, is never checked.",
     KF, [("purge and embargo masks on group values", KF[1])],
     "online reference-model monitor over generated group layouts", "exact set equality per split against a per-sample model")
prop("C03", "Walk-forward trains only on the past and tests every later sample once",
     "In walk-forward splitting, whatever gaps or repetitions the time groups have, every training set lies strictly before its test set, and the test sets tile all samples after the initial train window in time order without gap or overlap, each spanning at most the test window counted from its first group. The training set reaches up to the group just before the test set and starts at the first group (expanding) or spans the train window ending there (rolling). Exactly the groups within the embargo length before the first test group (limit inclusive) are removed from it.",
     ["inputs", "configurations"], "all group layouts with gaps and repetitions, window sizes, embargo lengths, frequencies, both window types",
     "Tests only use groups without gaps; the overlap of train and test that occurred with business-day gaps was invisible to them, and nothing checks that no sample is skipped.",
     WF, [("window boundaries advanced from the previous test end", WF[0]), ("embargo mask", WF[1])],
     "online reference-model monitor over generated group layouts", "every produced split is compared with a brute-force model, with a bound on the number of splits")
prop("C04", "Splits depend only on the data, not on containers, labels or history",
     "A splitter gives identical splits whether the time groups are an array, a Series with any index or a datetime index, whether the features are an array or a frame, whatever the target is, and however often, partially or interleaved it was used before; shifting all time groups by a constant changes nothing, and no input is modified. After a complete walk-forward pass the reported number of splits equals the number produced by that pass. Unsorted time groups, negative purge or embargo lengths, fewer than two folds and inputs of unsupported types are refused.",
     ["inputs", "histories", "configurations"], "all container types and index labels, all use histories of one splitter object",
     "Tests use each splitter object once or twice with one container type; histories with abandoned or interleaved passes and Series groups with arbitrary labels are not exercised.",
     KF + WF[:1], [("positional indexing of groups", KF[1]), ("split counter of one pass", WF[0])],
     "history monitor: random use histories of one splitter against fresh-object splits", "metamorphic agreement across containers, origins and histories")
prop("C05", "Simulated paths have the requested shape, column order and start values",
     "A simulation returns one row per step plus the initial row, and one column per variate and path with the variates of one path next to each other. The first row equals the requested start value (one value for all columns, one per variate repeated for every path, or one per column; any other number that does not divide the columns is refused), or without request the first observation the model was calibrated on (the last one on request), or for an uncalibrated model 0 (100 for geometric Brownian motion). Leaving out the initial value drops exactly the first row and changes nothing else.",
     ["inputs", "configurations", "histories"], "all models, numbers of steps, paths, variates, forms of start value, calibrated or not",
     "Tests check a handful of shapes, mostly one variate or one path; combinations of variates, paths and start value forms are not covered.",
     SIM, [("start row tiling", SIM[0]), ("result formatting", SIM[0])],
     "online monitor of simulation results against the request", "shape, order and start value oracle on every simulated path")
prop("C06", "Every simulated step is the exact solution of the model equation",
     "For every parameter set, step size, start value and seed, each step of a Brownian, geometric Brownian or Ornstein-Uhlenbeck path equals the exact one-step solution of its stochastic differential equation from the previous value, where the standard normal noise for a given seed, shape and correlation does not depend on the other parameters, the step size or the start value. Hence geometric Brownian paths stay positive and zero volatility gives the deterministic solution. With a correlation matrix the noise is the uncorrelated noise of the same seed and shape multiplied by the lower-triangular square root of that matrix.",
     ["inputs", "configurations"], "all parameters, step sizes, start values, seeds, numbers of steps, variates and paths",
     "Tests compare a few sample moments with loose tolerances for one or two variates; an error in a term that is small at the tested parameters passes.",
     SIM, [("noise filling and compounding", SIM[0]), ("one-step recursions", "sim/_bm.py, sim/_gbm.py, sim/_ou.py")],
     "trace monitor: step-by-step residuals against the noise of a canonical run with the same seed", "noise is recovered from a unit model and every other run must be its exact image")
prop("C07", "Simulation noise is normal, independent and correlated as requested",
     "The noise driving simulated paths has zero mean, unit variance and a normal distribution, is independent between steps, between paths and between different seeds, and its correlation between the variates of one path is the requested correlation matrix (uncorrelated when none is given).",
     ["inputs", "configurations"], "all seeds, shapes and correlation matrices",
     "Tests compare moments of single runs with tolerances of several percent; dependence between paths, steps or seeds is not looked at.",
     SIM, [("seeded generator and Cholesky mixing", SIM[0])],
     "statistical monitor over recorded noise of many runs (6 sigma thresholds)", "pooled moment, tail, autocorrelation, cross-path and cross-seed statistics")
prop("C08", "A seed fully determines a simulation; global randomness is left alone",
     "Simulating with a given seed gives bit-identical results in every repetition, whatever was simulated, calibrated or drawn from the global random generators before, on a fresh model or a used one, and from concurrent threads; different seeds and absent seeds give different paths. No simulation, calibration, scoring, clustering or distance function changes the state of the global random generators or depends on it.",
     ["histories", "schedules", "inputs"], "all histories of calls before and between seeded calls, thread interleavings, global generator states",
     "Tests use a seed at most once per model and never look at the global generator state.",
     SIM + [Q + "sim/_quasi_random.py"] + CLU, [("local generator per call", SIM[0]), ("local reference generator", CLU[1])],
     "history monitor: seeded calls interleaved with random other operations, global generator state fingerprints around every call", "bit-exact comparison of repeated seeded calls inside random histories and threads")
prop("C09", "Simulated output carries the requested or calibrated labels",
     "When dates, a frequency or column names are requested, or the model was calibrated on labelled data, the result is labelled, otherwise it is a plain array; the values are the same in both cases. The dates start at the requested start (default: first calibrated date, or last when continuing from the last value), follow the requested (default: calibrated) frequency and keep the calibrated index name; columns use the requested names, else the calibrated ones, else S or S0, S1, ..., with the path number appended when there are several paths. A single column is a Series when the model is uncalibrated or was calibrated on a Series; otherwise the result is a frame.",
     ["inputs", "configurations", "histories"], "all combinations of label arguments, calibration containers, numbers of paths and variates",
     "Tests call the private formatting helper for a few combinations; several valid combinations used to crash unnoticed.",
     SIM[:1], [("result formatting, column names and date index", SIM[0])],
     "online reference-model monitor of labels", "labels recomputed by a reference model, values compared with the unlabelled run")
prop("C10", "The time step follows the documented order of defaults",
     "A simulation uses the given time step, else the year fraction of the requested label frequency, else the step used in calibration, else 1/252. Calibration and scoring use the given step, else the year fraction of the spacing of the dates (daily 1/365, business-daily 1/252, weekly 7/365, monthly 1/12, quarterly 1/4, yearly 1), else 1/252. Regular dates with an unsupported spacing are refused when no step is given.",
     ["inputs", "configurations", "histories"], "all combinations of explicit steps, label frequencies, date indices and calibration histories",
     "Tests check the default of the private helper for a few cases; the label frequency was ignored and anchored weekly or quarterly dates were refused unnoticed.",
     SIM[:1] + [Q + "_datatypes/timeseries.py"], [("argument preprocessing", SIM[0]), ("duration table", Q + "_datatypes/timeseries.py")],
     "online monitor inferring the effective time step from noise-free runs", "effective step recovered from outputs and compared with the documented order")
prop("C11", "Calibration returns the model's estimators for every column",
     "Calibration sets, for every column separately, drift and volatility from mean and sample standard deviation of the changes (Brownian) or log returns (geometric, with half the squared volatility added to the drift), and mean-reversion rate, mean and volatility from the least-squares regression of each value on its predecessor (Ornstein-Uhlenbeck, with residual standard deviation), per unit of time step. For several columns it also sets the correlation of the changes, log returns or regression residuals, and for one column none. The result does not depend on the container, labels or on earlier calibrations, and the calibrated model can be simulated and scored at once.",
     ["inputs", "histories"], "all data sets, numbers of rows and columns, step sizes, containers, earlier calibrations of the same model",
     "Tests calibrate on simulated single paths with tolerances of several percent or on constant data; multi-column Ornstein-Uhlenbeck parameters and the drift convention were wrong without failing them.",
     SIM, [("estimators", "sim/_bm.py, sim/_gbm.py, sim/_ou.py")],
     "online reference-model monitor of calibrated parameters", "closed-form estimators recomputed independently per column")
prop("C12", "Likelihood and information criteria match the model's exact densities",
     "The negative log-likelihood of a path is minus the sum of the exact transition log-densities of the model over consecutive rows, jointly over the variates using the model's correlation. AIC is twice the number of parameters plus twice that value, and BIC is the number of parameters times the logarithm of the number of rows plus twice that value; the parameters counted are those of every variate plus, for a correlated model, one per pair of variates. Parameters fitted to a path never score worse in drift than perturbed ones.",
     ["inputs", "configurations", "histories"], "all models, parameters, paths, time steps, fitted or specified models",
     "Tests only check that the functions return; a missing time step factor in the likelihood and wrong criteria were not noticed.",
     SIM, [("transition densities", "sim/_bm.py, sim/_gbm.py, sim/_ou.py"), ("criteria", SIM[0])],
     "online reference-model monitor of scores", "scores recomputed from explicit Gaussian densities")
prop("C13", "Sampling and scoring never change a model or the caller's data",
     "Simulating from a model and scoring data with it leave its parameters and everything it remembers from calibration unchanged, so any later simulation, score or default gives the same answer as if those calls had not happened. Data passed to calibration, scoring or simulation is never modified, and modifying it afterwards does not change the model. A refit replaces the effect of an earlier fit completely.",
     ["histories"], "all sequences of calibrate, simulate and score calls on one model",
     "Tests make one or two calls per model object; scoring used to overwrite the calibrated state.",
     SIM, [("scoring without state", SIM[0])],
     "history monitor: random call sequences compared with a shadow model without the intermediate calls", "differential comparison of a used model and its shadow after every operation")
prop("C14", "Quasi-random paths add only a lagged, scaled indicator to the base path",
     "A quasi-random path equals the path its base model produces for the same request and seed plus a running sum that starts at zero and whose change at each step is the technical indicator of the base path up to the previous value (undefined indicator values count as zero) times one constant per column. That constant is the signal factor (one number, one per variate or one per column) times the base volatility times the square root of the time step, divided by the standard deviation of the indicator values at the interior steps (two degrees of freedom removed). The base model is not modified, and calibration is refused.",
     ["inputs", "configurations"], "all base models, indicators, factors and their forms, numbers of variates and paths, seeds",
     "Tests use one indicator that cancels the noise and check that the path is roughly flat; scaling, lag and several variates are not checked.",
     SIM[:2] + [Q + "sim/_quasi_random.py"], [("lag and scaling of the signal", Q + "sim/_quasi_random.py")],
     "online reference-model monitor of results and shown indicator inputs", "an instrumented indicator records what it is shown; the result is recomputed from the record")
prop("C15", "Indicators equal their textbook definitions at every time",
     "Rolling mean, sample standard deviation, maximum and minimum equal these statistics of the last window values and are missing until the window is full; exponentially weighted mean, unbiased standard deviation and momentum use weights decaying by the factor 1-2/(span+1) per step over all past values; rolling momentum is the change over the window divided by the window. The average true range is the exponentially weighted mean with factor 1-1/window of the largest of high minus low and the distances of high and low to the previous close; MACD is fast minus slow exponential mean, and its signal value is MACD minus its own exponential mean. RSI is 100 times the mean gain divided by mean gain plus mean loss over the period (rolling or exponential), so between 0 and 100.",
     ["inputs", "configurations"], "all series, lengths, windows, spans, including missing values, flat stretches and windows longer than the data",
     "Tests compare with fixed outputs for one short series or check types and lengths.",
     IND, [("indicator formulas", "feature/indicators")],
     "online reference-model monitor over generated series", "every value recomputed from the definition with exact summation")
prop("C16", "Bands are centred, ordered and consistent with their definitions",
     "For Bollinger (rolling or exponential), Keltner and Donchian bands, upper and lower band lie multiplier times the width measure above and below the middle band, where middle and width are rolling mean and standard deviation, exponential mean and standard deviation, exponential mean of the close and average true range, and the midpoint and half range of the rolling extremes respectively. The bandwidth is the distance of upper and lower band divided by the middle, and percent-b is the position of the series between the lower (0) and upper (1) band; the same holds for bands with a middle and width of the user's own. Reading a band repeatedly, or in any order, gives the same values and does not modify the input.",
     ["inputs", "configurations", "histories"], "all series, windows, multipliers and orders of access",
     "Tests check one series per band class against a few identities.",
     IND, [("band formulas", "feature/indicators/_bands.py")],
     "online reference-model and identity monitor", "band values recomputed from definitions, identities checked per value")
prop("C17", "No feature looks ahead: values depend only on data up to their time",
     "For every indicator, band, volatility, spread, liquidity and trade-model feature and for the structural break test, the value at time t is the same whether the input ends at t or continues, and whatever values follow t. For windowed features it also does not depend on values before the window that the feature needs.",
     ["inputs", "histories", "configurations"], "all feature functions, inputs, cut points and changes of the future",
     "Tests evaluate features on complete series only; a value that uses the next observation passes all of them.",
     IND + MIC + CUS, [("backward-looking windows", "feature/")],
     "metamorphic trace monitor: prefix runs and runs with an altered future or distant past", "all public features enumerated, random cut points")
prop("C18", "Features return the container, index and length they were given",
     "Every indicator, band, volatility, spread and trade-model function returns a plain array for array input and a Series with the same index and length for Series input, with the same values in both cases. Mixing arrays and Series, or passing anything else where a series is expected, is refused. 64-bit integer input gives the same values as the equal floating point input.",
     ["inputs", "configurations"], "all feature functions, index types, lengths and argument styles",
     "Tests check type agreement for a few functions on a default or date index.",
     IND + MIC, [("array/Series adapter", "feature/indicators/_base.py")],
     "online monitor of container, index and value agreement", "each feature run on several representations of the same data")
prop("C19", "Volatility estimators equal their published formulas",
     "Close-to-close, high-low (Parkinson), Garman-Klass, Rogers-Satchell, Yang-Zhang and Becker-Parkinson volatility equal their published variance (Becker-Parkinson: volatility) formulas over each complete window and are missing before it; close-to-close is the sample variance of the gross returns, Yang-Zhang combines the mean squared overnight return, the weighted mean squared open-to-close return and the complementarily weighted Rogers-Satchell variance. Parkinson, Rogers-Satchell and Becker-Parkinson values are never negative. Multiplying all prices by a constant changes none of them.",
     ["inputs", "configurations"], "all consistent bar series, windows and price units",
     "Tests check non-negativity and length, so a wrong term passes.",
     MIC[:1], [("estimator formulas", MIC[0])],
     "online reference-model monitor plus unit-change metamorphic monitor", "every value recomputed from the definition")
prop("C20", "Spread estimators equal their published formulas, however they are scheduled",
     "The Corwin-Schultz spread, Roll measure, Roll impact and the rolling EDGE spread (signed or absolute) equal their published formulas over each window and are missing before it; the absolute estimates are never negative and do not depend on the price unit (Roll impact is inversely proportional to it and to the volume). The EDGE spread of each window depends only on that window and does not depend on how the windows are distributed over parallel workers.",
     ["inputs", "configurations", "schedules"], "all consistent bar series, windows, sign settings and parallel execution backends",
     "Tests check non-negativity and length; the one EDGE comparison needs the network, and the Corwin-Schultz spread had a wrong sign.",
     MIC[:1], [("estimator formulas and parallel windows", MIC[0])],
     "online reference-model monitor under several parallel backends", "every value recomputed from the definition; process, thread and sequential schedules compared")
prop("C21", "Trade models equal their definitions",
     "Kyle's lambda is the rolling mean of the price change per signed volume, Amihud's of the absolute percentage change per traded value, Hasbrouck's of the log return per signed square root of traded value, and VPIN of the absolute difference of buy and sell volume divided by total volume. Estimated buy volume is volume times the Student-t distribution function (0.25 degrees of freedom) of the price change divided by its volatility, so it lies between zero and the volume. VPIN of a valid buy volume lies between zero and one, and Kyle, Amihud and Hasbrouck lambdas are never negative.",
     ["inputs", "configurations"], "all positive prices and volumes, windows and price histories",
     "Tests check lengths, types and a few hand-made values.",
     MIC[1:], [("ratio definitions and rolling means", "feature/micro_structure")],
     "online reference-model monitor over generated trades", "every value recomputed from the definition")
prop("C22", "The CUSUM break test reports the supremum statistic and its critical value",
     "For every positive price series and every time after the first, the statistic is the largest, over all earlier reference times, of the log-price change since the reference time divided by the square root of the elapsed time and by the root mean squared one-step log change up to that time. The critical value is the square root of 4.6 plus the logarithm of the time elapsed since the maximising reference time. Both are zero at the first time and do not depend on the price unit.",
     ["inputs"], "all positive price series",
     "Tests check shape and one break example.",
     CUS, [("nested maximisation", CUS[0])],
     "online reference-model monitor", "double loop reference on every time")
prop("C23", "Correlation distances follow their formulas and behave like distances",
     "For every correlation value or matrix, the angular, absolute angular and squared angular distances equal the square roots of (1-c)/2, 1-|c| and 1-c² with rounding overshoot of the correlation clipped, so they lie in [0,1]; matrices come out exactly symmetric with an exactly zero diagonal in the given container with its labels. Every correlation matrix that is valid up to rounding is accepted, while non-square, asymmetric or non-unit-diagonal arrays are refused. The angular distance satisfies the triangle inequality, and pairwise distances of two samples equal the formula of their correlation in either order.",
     ["inputs"], "all correlation values, matrices, samples and containers",
     "Tests use a few matrices built with an exact unit diagonal; matrices computed from data, whose diagonal is off by rounding, were refused.",
     DIST[:1] + [DIST[2]], [("conversion, clipping and diagonal fix", DIST[0])],
     "online reference-model and metric-axiom monitor", "formula, range, symmetry and triangle oracles on generated matrices")
prop("C24", "Entropy, mutual information and variation of information are consistent",
     "Entropies are those of the equal-width histograms of the two samples and of their joint histogram; mutual information is the sum of the marginal entropies minus the joint one, variation of information twice the joint minus the sum of the marginals, normalised on request by the geometric mean of the marginal entropies and by the joint entropy. Both are symmetric and non-negative up to rounding, normalised variation of information does not exceed one, a variable has zero variation with itself, and for a common bin number variation of information satisfies the triangle inequality. Without a bin number the published optimal number for the sample size and correlation is used, which stays moderate for perfectly correlated and anti-correlated samples.",
     ["inputs", "configurations"], "all pairs of non-constant samples, bin numbers and normalisations",
     "Tests check a few Gaussian samples with one decimal; perfectly anti-correlated samples exhausted memory.",
     DIST[1:2], [("histograms, entropies and bin numbers", DIST[1])],
     "online reference-model and axiom monitor", "histogram entropies recomputed by counting; axioms checked on triples")
prop("C25", "Distance matrices hold the pairwise distances in the input's order",
     "Every entry of a correlation or information distance matrix equals the distance of the two columns it stands for, computed from the Pearson or rank correlation (after the optional transformation) or from the pair's information measure; the matrix is symmetric with zero diagonal (one for normalised mutual information) and has the container and labels of the input. Reordering the columns reorders the matrix and nothing else, and the input is not modified. Unknown method names are refused.",
     ["inputs", "configurations"], "all data sets, methods, containers, labels and column orders",
     "Tests compare a few small matrices for one or two methods.",
     DIST[2:3] + DIST[:2], [("pair loop and labelled assembly", DIST[2])],
     "online reference-model and permutation monitor", "entries recomputed pair by pair; column permutations")
prop("C26", "Matrix divergences are non-negative and zero only between equal matrices",
     "The log-determinant and von Neumann divergences of two positive definite matrices equal their trace formulas, are non-negative, are zero for equal matrices and positive for different ones. Both are unchanged when both matrices are rotated by the same orthogonal matrix, the log-determinant divergence under every common congruence, and the von Neumann divergence scales with a common positive factor. Matrices that are not positive definite are refused.",
     ["inputs"], "all pairs of positive definite matrices",
     "Tests check identities on a few fixed matrices.",
     DIST[3:4], [("trace formulas", DIST[3])],
     "online reference-model and axiom monitor", "formulas recomputed from eigenvalues; invariances under random transformations")
prop("C27", "Hierarchical clustering cuts the right tree into exactly k clusters",
     "Asking for k clusters returns one label per item forming exactly k non-empty clusters; clusterings for growing k are nested, and they are those of the agglomerative tree with the chosen linkage on the distance matrix. Data, its correlation matrix and its distance matrix lead to the same tree and clusters for the chosen codependence and distance, in any container (of several given ones the distance counts first, then the correlation), and the inputs are not modified. Reordering the items reorders the labels only, up to renaming, and missing inputs or unknown codependence methods are refused.",
     ["inputs", "configurations", "histories"], "all data sets, linkage, codependence and distance methods, containers and item orders",
     "Tests use a few block matrices and default settings; correlation matrices computed from data failed.",
     CLU[:1] + DIST[2:3], [("distance selection, linkage and tree cut", CLU[0])],
     "online reference-model and permutation monitor", "tree and cuts compared with an independent agglomeration on a recomputed distance matrix")
prop("C28", "Cluster quality measures and the chosen cluster number follow their definitions",
     "The silhouette statistic is the mean of the per-item silhouette values divided by their standard deviation; the gap statistic is the mean over reference draws (uniform between 0 and the largest distance, one consecutive seed each) of the log within-cluster dispersion minus that of the data, with the standard deviation over the draws, deterministic for given inputs and seed and unchanged by renaming the clusters. The number of clusters chosen by silhouette maximises the statistic over two up to the maximum, and the one chosen by gap is the smallest k whose gap exceeds the next gap minus its deviation. Labels that do not match the matrix are refused.",
     ["inputs", "configurations"], "all distance matrices, labelings, seeds and search limits",
     "Tests check one or two block examples.",
     CLU, [("dispersion and reference draws", CLU[1]), ("selection rules", CLU[0])],
     "online reference-model monitor", "silhouette and dispersion recomputed by definition; selection recomputed from the reported statistics")
prop("C29", "Covariance, correlation and eigen forms convert into each other losslessly",
     "Splitting a covariance matrix into correlations and standard deviations and recombining them returns it (variances below the regularisation floor are raised to it), with correlations clipped to [-1,1] and symmetric. The eigen decomposition of a correlation matrix returns orthonormal vectors in columns with matching values, sorted in decreasing order on request, or only the k largest, and recombining a full decomposition returns the matrix with unit diagonal. Completing a partial decomposition keeps the given pairs, yields an orthonormal basis and spreads the remaining total evenly over the rest, so that the values sum to the dimension.",
     ["inputs"], "all covariance and correlation matrices of any size, including singular ones, and all k",
     "Tests check a few 2x2 and 3x3 matrices.",
     COV, [("conversions", COV[0])],
     "online round-trip and reference monitor", "algebraic identities on generated matrices")
prop("C30", "Denoising keeps the signal, total variance and validity of a matrix",
     "Denoising a correlation matrix returns a symmetric matrix with unit diagonal and entries within [-1,1], built from the same leading eigenpairs with all remaining eigenvalues replaced by their average; denoising a covariance matrix also keeps every variance (at or above the regularisation floor). The number of retained eigenvalues is the given one, or the number of eigenvalues at or above the upper noise bound for the fitted noise variance, and is reported together with that bound. No input is modified.",
     ["inputs", "configurations"], "all covariance and correlation matrices, sample lengths (also shorter than the dimension) and retained numbers",
     "Tests check shapes and trace on a few matrices.",
     COV, [("eigenvalue averaging and reassembly", COV[0])],
     "online reference-model monitor", "denoised matrix recomputed from an independent eigen decomposition")
prop("C31", "The Marchenko-Pastur functions describe one consistent distribution",
     "The noise bounds are variance times (1 ± the square root of assets per observation) squared; the density is the published one, zero outside the bounds and non-negative inside, and integrates to one when there are at least as many observations as assets, for floating point and integer arguments alike. It scales with the variance. The fitted variance is the value on the search grid (1000 even steps from 0.01 to 4) with the highest likelihood, where eigenvalues outside the bounds count with the density one over the largest eigenvalue; non-positive variances are refused.",
     ["inputs", "configurations"], "all variances, dimension ratios and eigenvalue lists",
     "Tests check a few points and that the fit returns a number in a range.",
     COV, [("support, density and grid search", COV[0])],
     "online reference-model monitor with numerical integration", "density recomputed pointwise and integrated; fit recomputed by exhaustive likelihood")
prop("C32", "Generated covariance and correlation matrices are valid",
     "A block matrix has unit diagonal, the given correlation inside each block in the given order and zero elsewhere, and its size is the sum of the block sizes; block lists of different length are refused. A randomly generated covariance matrix is symmetric and positive definite with total variance near one on average, and a randomly generated correlation matrix is symmetric, positive definite, has unit diagonal and entries within [-1,1], for every dimension and state of the random generator.",
     ["inputs"], "all block lists, dimensions and generator states",
     "Tests check a few dimensions and one block example.",
     COV, [("block assembly and Gram matrices", COV[0])],
     "online structural monitor", "structure checked entry by entry, definiteness by eigenvalues")
prop("C33", "The frequency of regular dates is recognised, and maps to its year fraction",
     "For regular dates of at least three points, the inferred frequency is the one they were made with: daily, business-daily (when a weekend is skipped), weekly, and start or end of calendar month, quarter or year, in any time zone and also across clock changes; for irregular dates, fewer points or objects without dates none is inferred, and the answer is the same for an index, a Series and a frame. Each supported frequency, with or without an anchor such as a weekday or month, has the year fraction 1/365, 1/252, 7/365, 1/12, 1/4 or 1, and unknown ones have none.",
     ["inputs"], "all start dates, lengths, frequencies, anchors and containers",
     "Tests use one long index per frequency; short series were misclassified.",
     [Q + "_datatypes/timeseries.py"], [("delta counting and duration table", Q + "_datatypes/timeseries.py")],
     "online reference monitor over start dates and lengths", "dates generated per frequency; the generator is the oracle")
prop("C34", "Bundled datasets load completely, unchanged and independently",
     "Every dataset loader returns the complete bundled table with a date index, the documented column names in the documented order and the numerical values of the bundled file, missing where the file has no value. Every call returns an independent table, so modifying one result never affects later calls, and loading does not depend on the working directory or modify the files.",
     ["histories", "configurations"], "all sequences of loader calls and result modifications, working directories",
     "Tests check non-emptiness and columns once.",
     [Q + "datasets/_dataloader.py"], [("file reading and column naming", Q + "datasets/_dataloader.py")],
     "history monitor with an independent parser of the bundled files", "values compared with a line-by-line parser after random histories of loads and modifications")
prop("C35", "Logging configuration takes effect exactly once and leaks nothing",
     "After configuring the library logger with a level and optional file, each message at or above the level appears exactly once on the console and, if asked, exactly once in the file, and messages below it appear nowhere, however often and in whatever order it was configured before. Replaced file outputs receive nothing more and are closed. Importing or using other parts of the library does not change the configured level or outputs.",
     ["histories", "configurations"], "all sequences of configurations, log messages, library imports and library calls",
     "Tests configure the logger once or twice and look at handler counts.",
     [Q + "util/_logging.py", Q + "distance/distance_matrix.py"], [("handler replacement", Q + "util/_logging.py")],
     "history monitor with unique message ids: exactly-once delivery over random configuration histories", "console stream, files and open descriptors observed against a model of the configuration")
prop("C36", "Library calls are pure: no modified inputs, output, files or global settings",
     "No public function for features, distances, clustering, matrices, simulation or splitting modifies its arguments, prints to standard output, writes files, or changes the global settings of numpy, pandas, warnings or the random generators (except that the generators of random covariance and correlation matrices draw from the latter). Repeating a call with equal arguments gives an equal result, whatever other library calls happened in between.",
     ["inputs", "histories"], "all public functions, inputs and call histories",
     "Tests do not compare inputs or global state before and after a call.",
     [Q], [("functional style of the library", Q)],
     "interposed purity monitor around every public function in random call histories", "fingerprints of arguments, global settings, output and files around each call")
prop("C37", "Information divergence of samples is a proper divergence where it is defined",
     "The Kullback-Leibler divergence of two samples is the sum over their equally numbered histogram bins of p·log(p/q), where the histogram of each sample uses the given (or optimal) number of equal-width bins between its own extremes and bins in which either sample has no mass are left out. It is zero for identical samples and is never negative when every bin occupied by the first sample is also occupied by the second. It is unchanged by shifting or positively scaling either sample when the bin number is given.",
     ["inputs", "configurations"], "all pairs of samples and bin numbers",
     "Tests check one decimal on Gaussian samples.",
     DIST[1:2], [("histogram divergence", DIST[1])],
     "online reference-model and axiom monitor", "divergence recomputed by counting")
prop("C38", "Inputs of unsupported type or shape are refused, all others accepted",
     "Distance, information and clustering quality functions, and functions guarded with the validating decorators, refuse one-dimensional inputs that are not arrays or Series of at least two values, and tabular inputs that are not arrays or frames with at least two columns, whether passed by position or by name, and accept every array, Series or frame that is. A refused call has no side effects. Absent optional inputs are not validated.",
     ["inputs", "configurations"], "all guarded functions, argument styles, types and shapes",
     "Tests check the decorators on a toy function and a few types.",
     [Q + "util/_validate.py"], [("validating decorators", Q + "util/_validate.py")],
     "online accept/reject monitor against an executable type and shape rule", "each guarded function driven with valid and invalid arguments in both calling styles")

prop("C40", "The splitters work unchanged as scikit-learn cross-validators",
     "scikit-learn's check_cv takes a splitter as it is, and cross_validate, cross_val_score, cross_val_predict and grid search train and score an estimator on exactly the rows of the splits that the splitter produces for the same data and time groups, in any container, and see the same number of splits (walk-forward: after a first pass). The data is not modified.",
     ["inputs", "configurations", "histories"], "all splitters, group and feature containers, scikit-learn tools",
     "The compatibility is documented but no test passes a splitter to scikit-learn.",
     KF + WF[:1], [("scikit-learn splitter protocol", KF[1])],
     "recording monitor: an estimator that logs the rows of every fit and score", "recorded rows compared with the splits of a fresh splitter")

prop("C39", "Copied and pickled objects behave like the original and independently",
     "Simulation models (constructed, calibrated or quasi-random), splitters, clusterings and bands can be copied, deep-copied and pickled whatever they were used for before, also into another process, and the copy gives the same results as the original for every request. Calibrating, changing or using a deep or pickled copy never affects the original, and the other way round.",
     ["inputs", "histories", "configurations"], "all public classes, containers of their data, ways of copying, earlier use",
     "No test copies or pickles an object; arrays inside bands could not be pickled at all.",
     SIM + KF + WF[:1] + CLU[:1] + IND[1:2] + [Q + "sim/_quasi_random.py"], [("object state", SIM[0]), ("band naming", IND[1])],
     "online comparison of observations of original and copy, in this and in another process", "every copy is observed and disturbed")

prop("C41", "Concurrent calls give the results of sequential calls",
     "When several threads call any of the public functions at the same time, with their own or with shared arguments, every call returns what it returns alone, and no argument changes. The same holds for threads that sample or score one model, or use one splitter, band or clustering object together.",
     ["schedules", "inputs"], "all pairs and groups of public functions, shared or separate arguments and objects, thread schedules",
     "All tests are single threaded.",
     SIM + KF + IND + MIC + DIST + CLU + COV, [("no module level state", SIM[0])],
     "stress with threads started at a barrier and very short switch intervals, results checked offline against sequential runs", "overlapping calls are counted; interleavings are sampled, not enumerated")

prop("C42", "Results depend on the values of the inputs, not on how they are stored",
     "Every public function gives the same result for the same values whether an array is stored by rows, by columns, as a strided, reversed or read-only view or as part of a larger array, whether a Series or frame was cut out of a larger one or assembled from pieces, and, for features and sample based measures, whether whole numbers are stored as floats or as integers of any type they fit in.",
     ["inputs"], "all public functions and storage forms of each of their arguments",
     "Tests pass freshly made contiguous float arrays.",
     IND + MIC + DIST + CLU + COV + SIM + KF, [("conversion of inputs", SIM[0]), ("numpy and pandas support", IND[0])],
     "metamorphic monitor: each call repeated with re-stored arguments", "the same values in generated storage forms")

prop("C43", "Importing any part, in any order, works alone and changes nothing",
     "Every module of the library can be imported first, alone and in any order, its documented public names are then available and are the same objects whatever was imported before, and star imports offer them as well. Importing prints nothing, warns about nothing, opens no files for writing and changes no settings of the process such as random state, warning filters, numpy and pandas options or the root logger.",
     ["configurations", "histories"], "all modules, import orders and star imports, in fresh interpreters",
     "Tests import everything in one order into one process; star imports of two modules failed.",
     [Q + "sim/__init__.py", Q + "util/__init__.py", Q + "distance/__init__.py", Q + "clustering/__init__.py", Q + "feature/indicators/__init__.py", Q + "feature/micro_structure/__init__.py"],
     [("public names", Q + "sim/__init__.py")],
     "process state probes around imports in fresh interpreters", "sampled import orders, every public package as the first one")

prop("C44", "Calibration, simulation and likelihood describe the same model",
     "Calibrating on a long path simulated by a model returns the model's parameters and correlation within statistical error, with the time step given or taken from the dates on both sides, and the likelihood of the true parameters is then within statistical error of the best one. For (geometric) Brownian motion and for a single Ornstein-Uhlenbeck series no other parameter values give the calibration data a higher likelihood than the calibrated ones, apart from the use of the unbiased variance estimate. Calibrating again on the same data returns the same parameters.",
     ["inputs", "configurations", "histories"], "all models, parameters, time steps, label frequencies, numbers of variates, data",
     "Tests recover parameters for one or two parameter sets with wide tolerances and never compare likelihoods of different parameters.",
     SIM, [("calibration", SIM[0]), ("likelihood", SIM[0])],
     "statistical and metamorphic monitor over simulate, calibrate and score cycles", "bounds of seven standard errors; the likelihood comparison is exact up to rounding")

prop("C45", "The order of assets and observations and the names of clusters do not matter",
     "Permuting the assets permutes, and does not otherwise change, the results of covariance and correlation conversions, denoising, distance matrices (with their labels), divergences, clusterings, cluster quality and calibration; permuting the observations leaves distance matrices unchanged, and renaming cluster labels leaves cluster quality measures unchanged. (Data where ties or rounding decide is excepted.)",
     ["inputs"], "all permutations of assets, observations and label names, all sizes and containers",
     "Tests use fixed orders.",
     COV + DIST + CLU + SIM, [("matrix functions", COV[0]), ("distance matrices", DIST[2])],
     "metamorphic monitor with random permutations", "each result compared with the permuted result")

prop("C46", "Nothing is kept after a call: no arguments, results, files, threads or growth",
     "After a call to any public function has returned or has been refused, and the caller has dropped arguments and result, none of them stays in memory, and no file handle or thread stays open. Neither the library nor its models, splitters, clusterings and bands grow with the number of uses, and objects are released together with their data once they are dropped.",
     ["inputs", "histories"], "all public functions and classes, outcomes and numbers of repetitions (parallel work run sequentially)",
     "No test looks at lifetimes, and caches or global references do not change results.",
     SIM + KF + IND + MIC + DIST + CLU + COV + [Q + "datasets/_dataloader.py"], [("no module level state", SIM[0])],
     "leak monitor: weak references to arguments and results, counts of files and threads, pickled size of objects, values held by modules, classes, closures and caches of the library over repeated calls with fresh arguments", "lifetimes observed after garbage collection")

prop("C47", "A failed or interrupted call leaves everything as it was",
     "When a calibration, simulation, score, split, clustering request or logging configuration is refused or fails at any point, including by memory exhaustion or an interruption by the user, the error reaches the caller and the object or logger afterwards behaves as before the call (a calibration that was interrupted at its very end may also be complete, never a mixture), and it can be used again as usual. Data passed in and the global random state stay unmodified.",
     ["fault_sequences", "inputs", "histories"], "all failure points (every executed source line), refused requests and object histories",
     "Tests check that bad requests raise, never what is left behind; a refused calibration used to leave the new labels next to the old parameters.",
     SIM + [Q + "sim/_quasi_random.py", Q + "util/_logging.py"] + KF + WF[:1] + CLU[:1], [("calibration state", SIM[0]), ("handler replacement", Q + "util/_logging.py")],
     "fault injection at executed lines of the library, with the observable state compared before and after", "faults are sampled over all executed lines of generated calls")

prop("C48", "Results do not depend on the surroundings of the process",
     "Every public function gives the same result for the same arguments, and refuses the same ones, whatever the hash seed, time zone, locale, clock, number of processors, working directory (even a removed one), environment variables, standard streams (even closed ones), garbage collector settings, numpy and pandas options, state of the random generators, or calling thread. It also does so when Python runs optimised or without docstrings (checks written as assertions are then absent), and a call that warns about nothing succeeds when warnings and floating point errors are turned into exceptions.",
     ["configurations", "inputs", "histories"], "all public functions under all combinations of the listed surroundings",
     "The tests run in one environment; the indicators could not even be imported by an interpreter that strips docstrings, which no test run could show.",
     [Q + "feature/indicators/_bands.py"] + SIM[:1] + IND[:1] + MIC[:1] + DIST[:3] + CLU + COV + [Q + "datasets/_dataloader.py", Q + "util/_fs_utils.py"], [("computations without reference to process state", Q + "sim/_base.py")],
     "differential monitor: the same calls in fresh processes with hostile surroundings against the results in the monitor's process", "functions, arguments and surroundings are sampled")
prop("C49", "Parameters work by position, by name and by their documented default",
     "Every parameter of a public function, model, band, clustering or splitter can be given by position in the documented order or by name in any order with the same result, and leaving out optional parameters equals giving their documented defaults. Unknown parameter names are refused (by calibration and distance matrices, which document additional arguments, they are not). A default means the same for every call, whatever was done before to objects that were made with it.",
     ["inputs", "configurations", "histories"], "all public callables, all ways to split their arguments into positional, named and omitted ones",
     "Tests call each function in one or two ways; defaults are rarely checked against the documentation, and quasi-random models silently shared one default base model.",
     [Q + "sim/_quasi_random.py"] + SIM + IND + MIC + DIST + CLU + COV + KF[:1] + WF[:1], [("signatures and defaults", Q + "sim/_base.py")],
     "metamorphic monitor over calling conventions with a table of the documented defaults", "ways to call and arguments are sampled; internal matrix functions are called by position only")

prop("C50", "The library's array, frame and series types accept exactly what they declare",
     "Used as pydantic types - in an adapter, as model field, call parameter or container item, alone or as members of a union - the library's array, frame and series types accept exactly the values of the declared container, shape (a wildcard matches every extent) and element type (arrays: any type that can safely be cast to it; frames and series: that type) and hand them on as the same object; every other value is refused. The types of the splitter inputs accept the arrays, frames, series and dates they list. Validation and serialisation never change the value, and an array is serialised as the nested list of its values.",
     ["inputs", "configurations"], "all declared types, ways to use them, and values that fit them or miss them in one respect",
     "No test uses these types; unions refused everything but their first member, and the declared dates were never accepted.",
     [Q + "util/_custom_types.py", Q + "train_test_split/_dtypes.py"], [("pydantic annotations", Q + "util/_custom_types.py"), ("types of splitter inputs", Q + "train_test_split/_dtypes.py")],
     "online reference model of the declared container, element type and shape, around the real validators", "casts numpy itself leaves to convention (64 bit integers to floats, text, dates) are not judged; schemas are not judged")

MANIFEST_NOTES = (
    "Pure Python library without threads or native code of its own: the monitors are reference models, metamorphic "
    "relations, histories and purity probes around the real code imported from /repo; no hooks in /repo are needed. "
    "See DESIGN.md."
)


def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=["public call boundary"], hook_needed=None),
            )) + "\n")
    built = [p for p in P if os.path.exists(os.path.join(HERE, "rv", "props", p["id"].lower() + ".py"))]
    rest = [p for p in P if p not in built]
    py = "/opt/venv/bin/python"
    man = dict(
        version=1, setup_cmd="bash setup.sh",
        hooks=dict(guard="QFL_VERIF", enable="no hooks were needed: the monitors observe the unmodified code at its call boundary", source_commits=[]),
        checks=[dict(
            property=p["id"], quick_cmd=f"{py} run.py {p['id']} --tier quick",
            thorough_cmd=f"{py} run.py {p['id']} --tier thorough",
            technique="runtime monitoring: " + p["technique"], level="exploration",
            level_note="Held on the executions observed (counted in the evidence), not verified: " + p["note"] + ". Trusts numpy/pandas/scipy and the reference models in rv/.",
            evidence_file=f"evidence/{p['id']}.json",
        ) for p in built],
        not_applicable=[dict(property=p["id"], reason="check not built yet") for p in rest],
        notes=MANIFEST_NOTES,
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
