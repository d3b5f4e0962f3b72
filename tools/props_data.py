MC_IN = "exhaustive bounded enumeration of inputs on the real code vs. reference model"

prop("C01", "Fitted model is acyclic and consistent with its causal order",
     "After any successful fit of an order-based estimator (direct, ICA-based, high-dimensional, multi-group, nonlinear residual-based, autoregressive instantaneous part, longitudinal per time point), the reported causal order is a permutation of all the variables and every non-zero coefficient of the (contemporaneous) adjacency matrix points from a variable earlier in that order to a later one. In particular the adjacency matrix is square, finite, acyclic and has a zero diagonal, whatever the data and whatever the intermediate statistics were.",
     ["inputs", "configurations"],
     "For every dataset, estimator configuration and every sequence of answers of the statistical sub-procedures (unmixing matrix found, independence statistic, regression coefficients).",
     "Tests only compare a handful of random datasets at a loose tolerance; they cannot reach all orderings, all unmixing matrices or all verdict sequences of the independence tests.",
     ["lingam/base.py", "lingam/direct_lingam.py", "lingam/ica_lingam.py", "lingam/high_dim_direct_lingam.py", "lingam/multi_group_direct_lingam.py", "lingam/resit.py", "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py"],
     [("adjacency estimation restricted to predecessors", "lingam/base.py:_estimate_adjacency_matrix"), ("order search by permutation of the unmixing matrix", "lingam/ica_lingam.py:_estimate_causal_order"), ("edge pruning", "lingam/resit.py:_remove_edges")],
     "exhaustive exploration of unmixing matrices, independence-verdict sequences and small datasets on the real estimators",
     "All small datasets/graphs within stated bounds and all answer sequences of the stubbed statistical oracles; trusts numpy/sklearn linear algebra.")

prop("C02", "Exact recovery of identifiable linear non-Gaussian models",
     "When the data are generated exactly by an acyclic linear model with mutually independent non-Gaussian errors, the linear acyclic estimators (direct with either independence measure, ICA-based, high-dimensional, multi-group) report a causal order compatible with the true graph and an adjacency matrix equal to the true coefficients. The estimators allowing latent confounding recover the same parent sets with nothing marked as confounded when there is no confounder. Supplying correct prior knowledge never spoils the recovery.",
     ["inputs", "configurations"],
     "For every DAG on up to 4 variables (relabellings included), coefficient signs and magnitudes, error laws and scales, on data whose empirical error distribution is exactly a product measure.",
     "Tests sample one or two fixed graphs (x0..x5 of the README) with random noise and accept large deviations, so an error tied to a particular graph shape, variable position, sign or scale is invisible.",
     ["lingam/direct_lingam.py", "lingam/ica_lingam.py", "lingam/high_dim_direct_lingam.py", "lingam/multi_group_direct_lingam.py", "lingam/bottom_up_parce_lingam.py", "lingam/rcd.py", "lingam/camuv.py", "lingam/utils/__init__.py"],
     [("order search", "lingam/direct_lingam.py:_search_causal_order"), ("adaptive lasso", "lingam/utils/__init__.py:predict_adaptive_lasso"), ("ICA permutation", "lingam/ica_lingam.py:fit")],
     "exhaustive enumeration of all small DAGs x weights x error laws on exact factorial data",
     "Exact on the enumerated graphs/weights/noise laws; independence is exact by construction so no statistical tolerance is involved (1e-6 numeric).")

prop("C03", "Prior knowledge is obeyed",
     "With prior knowledge applied strictly, the reported order places the source of every required path before its target, no coefficient is reported from a variable declared to have no path to another, and variables declared exogenous or sink have no incoming or outgoing edge; this holds whatever the data suggest. Applied strictly or softly, the order of the direct methods is the one their search finds among the candidates prior knowledge leaves at each step. Contradictory required paths or a matrix of the wrong shape are rejected with an error instead of producing a model, and the helper that builds prior-knowledge matrices encodes exactly what was asked.",
     ["inputs", "configurations"],
     "For every prior-knowledge matrix over {unknown, no path, path} on 3 variables (and structured ones on 4), every dataset preference, every estimator taking prior knowledge.",
     "Tests try a few matrices against one dataset; 3^6 matrices times all data preferences are out of their reach.",
     ["lingam/direct_lingam.py", "lingam/multi_group_direct_lingam.py", "lingam/bottom_up_parce_lingam.py", "lingam/camuv.py", "lingam/multi_group_camuv.py", "lingam/longitudinal_lingam.py", "lingam/utils/__init__.py"],
     [("partial orders", "lingam/direct_lingam.py:_extract_partial_orders"), ("matrix construction", "lingam/utils/__init__.py:make_prior_knowledge")],
     "exhaustive enumeration of prior-knowledge matrices x adversarial data preferences",
     "All 3^6 matrices for 3 variables x data generated by every causal order; structured subset for 4 variables.")

prop("C04", "Directed paths and total effects are exact for any adjacency matrix",
     "The path finder returns every directed path between two variables exactly once with the product of its coefficients, using only edges whose absolute coefficient exceeds the threshold and ignoring edges of unknown direction; the total effect is the sum over those paths. If the search can run into a directed cycle it reports an error instead of returning a wrong answer, and effects through variables declared discrete are refused.",
     ["inputs"],
     "For every adjacency matrix (cyclic ones and missing values included), every source/target pair and threshold.",
     "Tests check three or four hand-made graphs; completeness of enumeration needs all graphs.",
     ["lingam/utils/__init__.py"],
     [("depth-first path search", "lingam/utils/__init__.py:find_all_paths"), ("sum over paths", "lingam/utils/__init__.py:calculate_total_effect")],
     "exhaustive enumeration of all digraphs n<=4 and all DAGs n=5 vs. recursive reference and (I-B)^-1",
     "Complete within the bound on graph size and coefficient alphabet.")

prop("C05", "Bootstrap summaries are exact recounts of the replicates",
     "Direction counts, DAG counts, bootstrap probabilities, total-effect tables and path tables of a bootstrap result equal a recount over the recorded replicates: each replicate contributes once to exactly the edges whose absolute coefficient exceeds the threshold, split by sign if asked, missing values never count, and results are listed in descending order truncated to the requested top-n. Printed reports show exactly those rows, and querying never changes the recorded replicates.",
     ["inputs", "histories"],
     "For every sequence of replicate matrices (any shape, sign, NaN pattern) and every combination of query options.",
     "Tests only look at lengths and types of the returned dictionaries for one random bootstrap run.",
     ["lingam/bootstrap.py", "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py", "lingam/utils/__init__.py"],
     [("counting", "lingam/bootstrap.py:get_causal_direction_counts"), ("DAG counting", "lingam/bootstrap.py:get_directed_acyclic_graph_counts"), ("paths", "lingam/bootstrap.py:get_paths"), ("printing", "lingam/utils/__init__.py:print_causal_directions")],
     "exhaustive enumeration of replicate sequences x queries vs. pure-Python recount",
     "Complete for the stated matrix alphabets and sequence lengths.")

prop("C06", "Bootstrap replicates are refits of the recorded resamples",
     "Every replicate recorded by a bootstrap run is exactly the model obtained by fitting a fresh, identically configured estimator to that replicate's resample, its total effects are those implied by that replicate's own adjacency matrix, and the recorded sample indices, where provided, identify the rows used. The number of replicates equals the number requested and an invalid number is rejected.",
     ["inputs", "schedules", "histories"],
     "For every sequence of resampling outcomes and every estimator with a bootstrap method.",
     "Tests check shapes only; they cannot relate a replicate to its resample because the draw is random.",
     ["lingam/bootstrap.py", "lingam/multi_group_direct_lingam.py", "lingam/rcd.py", "lingam/multi_group_rcd.py", "lingam/bottom_up_parce_lingam.py", "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py"],
     [("resample/refit loop", "lingam/bootstrap.py:bootstrap")],
     "controlled resampling: every sequence of resample choices, each replicate compared with a fresh fit",
     "All sequences up to depth 3 over a set of resample outcomes, for each estimator.")

prop("C07", "An estimator's result depends only on its settings and the last data",
     "Refitting an instance gives the same result as a freshly constructed instance with the same settings fitted on the same data, whatever was done with the instance before (fits on other data or other dimensions, bootstraps, failed calls, effect queries). Constructor settings are never overwritten by fitting, and read-only queries never change the fitted model.",
     ["histories"],
     "For every history of public operations up to the depth bound on every estimator and post-processing class.",
     "Each test builds a fresh object and calls one method; sequences of operations on one instance are never compared with fresh ones.",
     ["lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/lim.py", "lingam/longitudinal_lingam.py", "lingam/direct_lingam.py", "lingam/rcd.py", "lingam/camuv.py", "lingam/causal_effect.py", "lingam/causal_based_simulator.py"],
     [("per-fit state stored on the instance", "lingam/*.py:fit")],
     "breadth-first exploration of operation histories on one instance vs. fresh instance",
     "All operation sequences up to depth 2-3 from a per-class alphabet.")

prop("C08", "Caller data is never modified",
     "No public operation (fitting, bootstrapping, effect estimation, simulation, imputation, plotting preparation, utilities) modifies the arrays, data frames, lists, dictionaries or matrices passed to it, nor do later operations on the object change what the caller passed earlier or results that were handed out earlier.",
     ["inputs", "histories"],
     "For every public operation with mutable arguments, over array layouts (C/Fortran order, views, data frames, lists, integer data).",
     "Tests never compare arguments before and after a call.",
     ["lingam/"],
     [("copies of inputs", "lingam/*.py")],
     "exhaustive enumeration of public operations x argument representations with before/after comparison",
     "All listed operations x representations; read-only arrays used as an additional monitor.")

prop("C09", "Results follow relabelling, rescaling and representation of the data",
     "For the methods whose definition treats variables and samples symmetrically (direct, high-dimensional, multi-group direct, bottom-up, vector autoregressive, longitudinal), permuting the columns of the data permutes the estimated causal order and coefficients accordingly and permuting the samples leaves them unchanged. Rescaling (also by a negative factor) or shifting variables only changes the units of the coefficients, for every method whose statistics are scale free (for the high-dimensional and the nonlinear method: signs, shifts and one factor common to all variables). Equal values given as data frame, nested list, integer or float array, any memory layout or read-only give the same fit, query and bootstrap results, for every estimator.",
     ["inputs"],
     "For every permutation of columns, representation, shift, sign and scale on a family of datasets (at most 100 samples for kernel-based tests, whose width is set from the first 100 samples), for every estimator of the class named.",
     "Metamorphic relations over all permutations are never exercised by the example-based tests.",
     ["lingam/direct_lingam.py", "lingam/ica_lingam.py", "lingam/multi_group_direct_lingam.py", "lingam/high_dim_direct_lingam.py", "lingam/rcd.py", "lingam/camuv.py", "lingam/bottom_up_parce_lingam.py", "lingam/resit.py"],
     [("index handling", "lingam/*.py:fit")],
     "exhaustive enumeration of column permutations x representations x affine maps (metamorphic)",
     "All permutations for n<=4 and all listed representations on a fixed family of datasets.")

prop("C10", "Latent-confounder results are structurally coherent",
     "For the methods that allow hidden common causes, unknown (NaN) entries are symmetric and never coexist with a directed edge between the same pair, no pair has edges in both directions, and, for the repetitive procedure, every directed parent is among the reported ancestors and coefficients are the regression of a variable on exactly its reported parents; for the bottom-up procedure, the partial causal order is a partition of the variables whose leading unresolved block is exactly the set of pairs marked unknown. For every sequence of verdicts the independence, correlation and normality tests may return (p-values of exactly zero included), the result is the one the published procedure derives from those verdicts, each test judged at its own configured level and bandwidth, pooling the evidence of all groups when there are several.",
     ["inputs", "schedules", "configurations"],
     "For every sequence of independence / normality / correlation verdicts and every configuration.",
     "Tests see the one verdict sequence their random data produce.",
     ["lingam/rcd.py", "lingam/multi_group_rcd.py", "lingam/camuv.py", "lingam/multi_group_camuv.py", "lingam/bottom_up_parce_lingam.py", "lingam/utils/_rcd.py"],
     [("ancestor extraction", "lingam/utils/_rcd.py:extract_ancestors"), ("parents", "lingam/rcd.py:_extract_parents"), ("confounded pairs", "lingam/rcd.py:_extract_vars_sharing_confounders")],
     "stateless exploration of all verdict sequences of the statistical tests on the real code",
     "All verdict sequences (deviation bounded for the larger ones) for 3 variables; structure checked on every path.")

prop("C11", "Autoregressive models reproduce the series they were fitted to",
     "For the vector autoregressive (moving-average) estimators, the lagged coefficient matrices equal the reduced-form coefficients left-multiplied by (identity minus the instantaneous matrix), residuals are the reduced-form residuals aligned in time, lag k coefficients refer to the value k steps earlier, and on exactly generated series with known reduced form the true matrices are recovered. Path and total-effect queries with a source lag refer to that same lag, and the number of lags used is the one chosen by the criterion.",
     ["inputs", "configurations"],
     "For every instantaneous DAG on up to 3 variables, lag structure (1 or 2 lags), criterion and pruning option.",
     "Tests check one simulated series with one lag and only the shapes for lag > 1.",
     ["lingam/var_lingam.py", "lingam/varma_lingam.py"],
     [("structural transformation", "lingam/var_lingam.py:_calc_b"), ("psi and omega", "lingam/varma_lingam.py:_calc_psi_and_omega"), ("total effects", "lingam/var_lingam.py:estimate_total_effect2")],
     "exhaustive enumeration of structural VAR/VARMA models with exact reduced forms on the real code",
     "All DAGs n<=3 x lag patterns within the coefficient alphabet.")

prop("C12", "Longitudinal models address the right time points",
     "For panel data, the coefficients reported for time t are those of the equation of time t, split into the contemporaneous part and one matrix per lag in increasing lag order, residuals and p-values belong to the same time point, and total effects, bootstrap paths and probabilities between (time, variable) pairs equal the ones computed on the time-unrolled graph.",
     ["inputs", "configurations"],
     "For every assignment of contemporaneous and lagged DAGs on 2-3 variables, 2-7 time points, 1-3 lags and every (from-time, from-variable, to-time, to-variable).",
     "Tests use a single 3-time-point dataset with one lag and check shapes.",
     ["lingam/longitudinal_lingam.py"],
     [("lag handling", "lingam/longitudinal_lingam.py:fit"), ("paths", "lingam/longitudinal_lingam.py:get_paths")],
     "exhaustive enumeration of small longitudinal models vs. unrolled reference graph",
     "All enumerated structures within bounds.")

prop("C13", "Estimated total effects and error diagnostics match the fitted model",
     "The total effect estimated from data is the coefficient of the source when regressing the target on the source and the source's parents in the fitted model, equals the path-sum effect whenever the data follow the model exactly, and a warning is issued when the query contradicts the causal order or the source is marked as confounded (its effect is then reported as unknown). The error-independence p-value matrix is symmetric with zero diagonal and each entry is the test of the two residuals of the fitted model, unknown for variables involved in a pair marked as confounded.",
     ["inputs"],
     "For every DAG on up to 4 variables, every pair and every estimator offering the query (for lagged and panel models: at every lag and time point).",
     "Tests only check that the call succeeds.",
     ["lingam/base.py", "lingam/multi_group_direct_lingam.py", "lingam/rcd.py", "lingam/multi_group_rcd.py", "lingam/bottom_up_parce_lingam.py", "lingam/camuv.py", "lingam/var_lingam.py", "lingam/varma_lingam.py", "lingam/longitudinal_lingam.py"],
     [("covariate adjustment", "lingam/base.py:estimate_total_effect"), ("p-values", "lingam/base.py:get_error_independence_p_values")],
     "exhaustive enumeration of DAGs x pairs on exact data vs. closed-form effects",
     "Exact within bounds.")

prop("C14", "Intervention effects follow the do-semantics of the model",
     "The effect of intervening on a variable on a predicted target is computed on the model with that variable's incoming edges removed and all other mechanisms and observed errors unchanged; the expected difference and the optimal intervention agree with that mutilated model, and intervening with the returned optimal value attains the requested prediction. The nonlinear effect plot shows, for every replicate and position, the average prediction of the effect when the cause is set to that position, adjusting for exactly the parents of the cause in that replicate and using that replicate's rows.",
     ["inputs"],
     "For every DAG on up to 4 variables with coefficients that may cancel, every intervened variable, prediction model and desired output.",
     "Tests check a single graph and only shapes/labels.",
     ["lingam/causal_effect.py", "lingam/utils/_visualize_nonlinear_causal_effect.py"],
     [("effect plot", "lingam/utils/_visualize_nonlinear_causal_effect.py:_calculate"), ("do-operation", "lingam/causal_effect.py:_calculate_neighbors_expectation_with_intervention")],
     "exhaustive enumeration of DAGs x interventions vs. closed-form mutilated model",
     "Exact within bounds.")

prop("C15", "Causal simulation follows the trained structural model",
     "After training, running the simulator without changes reproduces the training data (for a variable declared discrete, its classifier's prediction); replacing the error series of a variable, replacing a mechanism or re-wiring parents affects exactly that variable and its descendants, each recomputed from its (new) parents through its (new) mechanism plus its own error series. Shuffling the residuals reorders those of all variables by one common permutation given by the seed. Invalid requests (cyclic rewiring, unknown names, running before training) are rejected with the documented errors and runs do not influence later runs.",
     ["inputs", "histories", "fault_sequences"],
     "For every DAG on up to 4 variables, every combination of one or two changes, every sequence of runs.",
     "Tests exercise one graph and check a few error branches.",
     ["lingam/causal_based_simulator.py"],
     [("training", "lingam/causal_based_simulator.py:train"), ("running", "lingam/causal_based_simulator.py:run")],
     "exhaustive enumeration of graphs x changes x run histories vs. structural reference interpreter",
     "Complete within bounds on graph size and change sets; trusts the sklearn regressors' predict.")

prop("C16", "Graph utilities describe the adjacency matrix exactly",
     "Drawings contain exactly one arrow per coefficient above the limit, from cause to effect with that coefficient as label, and one double-headed arrow per unknown pair; sink, exogenous, distance-from-root, ancestor and highlighting queries agree with the graph of the matrix regardless of coefficient signs, cancellation, size or labels. Removing the effect of features leaves each remaining column's regression residual on them and the removed columns untouched, and the fit indices of a matrix are those of the model it describes.",
     ["inputs"],
     "For every digraph on 3 variables, every DAG on 4, coefficient signs (cancelling included), NaN patterns, labels and limits.",
     "Tests only check that a graph object is returned.",
     ["lingam/utils/__init__.py", "lingam/utils/_rcd.py"],
     [("drawing", "lingam/utils/__init__.py:make_dot"), ("highlight", "lingam/utils/__init__.py:make_dot_highlight"), ("root distance", "lingam/utils/__init__.py:calculate_distance_from_root_nodes")],
     "exhaustive enumeration of graphs x options, DOT source parsed back and compared with the matrix",
     "Complete within bounds.")

prop("C17", "Bootstrap with imputation respects observed values and plug-in contracts",
     "In the imputation bootstrap the resample indices identify the rows of each replicate, the plug-ins are given exactly that resample, every dataset passed on to discovery contains no missing value and (with the built-in imputer) all observed values of the resample, the recorded imputations are exactly the values put at the missing cells, and causal orders and adjacency matrices of a replicate are the ones returned for that replicate's imputed datasets (the joint fit of them, for the built-in discovery). A plug-in whose answer has missing or infinite values, a wrong shape, an order that is no permutation or a wrong number of matrices is rejected with an error at whatever replicate it happens.",
     ["inputs", "fault_sequences"],
     "For every missingness pattern, every plug-in misbehaviour and every position in the run at which it occurs.",
     "Tests run one random missing pattern with well-behaved plug-ins and a few misbehaving ones.",
     ["lingam/tools/__init__.py"],
     [("imputation loop", "lingam/tools/__init__.py:bootstrap_with_imputation")],
     "fault enumeration over plug-in misbehaviours x positions, and exhaustive missingness patterns",
     "Complete within bounds.")

prop("C18", "Equal seeds give equal results, and global random state does not leak in",
     "Estimators whose randomness is governed by a seed give the same results when constructed with the same seed and fitted on the same data, independent of the state of the global random generators, of the interpreter's hash seed and of other work done before; fitting and querying seeded or deterministic estimators never disturbs the global random state. Bootstrap runs (and the mixed-data search, which has no seed) are reproducible when the global seed is fixed; seeded simulation and imputation depend on their seed only.",
     ["inputs", "histories"],
     "For every estimator, seeds and interleavings of unrelated random draws.",
     "Tests never fit twice and compare.",
     ["lingam/"],
     [("seed plumbing", "lingam/*.py")],
     "enumeration of seeds x global-state perturbations x histories, results compared bit for bit",
     "Complete for the listed estimators and perturbations.")

prop("C19", "Multi-group estimation is symmetric and shares one structure",
     "Multi-group estimators report one causal order (or one set of ancestors and parents) common to all groups with one coefficient matrix per group in the order given; permuting the groups permutes the matrices (and effects and diagnostics) and changes nothing else. Groups that are copies of one dataset give that dataset's single-group result for each group (for the test-based methods, whenever the tests' verdicts are clear-cut), the order of the direct method is that of the pooled evidence weighted by group size, and groups sharing a graph but not its coefficients each get their own coefficients.",
     ["inputs"],
     "For every pair/triple of group datasets from a family and every permutation of the groups.",
     "Tests fit a single fixed list of two groups.",
     ["lingam/multi_group_direct_lingam.py", "lingam/multi_group_rcd.py", "lingam/multi_group_camuv.py"],
     [("pooling over groups", "lingam/multi_group_direct_lingam.py:_search_causal_order"), ("pooling of tests", "lingam/multi_group_rcd.py:_is_independent")],
     "exhaustive enumeration of group lists x permutations; stateless exploration of per-group verdicts",
     "Complete within the family.")

prop("C20", "Independence measures obey their defining laws",
     "The kernel independence statistic and its p-value are the ones of their definition (biased statistic, gamma approximation of its null law, kernel width by median distance of the first 100 samples or by the two rules of thumb), p-values lie in [0, 1], and they do not depend on which sample is named first, on the shape, shift, sign or scale of the samples or on joint reordering (of at most 100 samples). The kernel correlation measure agrees with the regularised first kernel canonical correlation of the full kernel matrices up to its low-rank approximation, is symmetric and bounded by [0, 1], with the stated change of constants for more than 1000 samples.",
     ["inputs"],
     "For every small sample over a value alphabet and every permutation.",
     "Tests check one or two random samples for a coarse bound.",
     ["lingam/hsic.py", "lingam/utils/_f_correlation.py"],
     [("HSIC gamma test", "lingam/hsic.py:hsic_test_gamma"), ("kernel canonical correlation", "lingam/utils/_f_correlation.py:f_correlation")],
     "exhaustive enumeration of small samples vs. naive double-sum reference",
     "Complete over the alphabet.")

prop("C21", "Experimental data generation and tuning follow the fitted mechanisms and graphs",
     "The causal data generator reproduces the training data when nothing is changed; replacing the values or the errors of a variable changes exactly that variable and what is generated from it: the cause from the adjustments, the effect from the cause and the adjustments, each by its fitted (or user-given) mechanism plus its error, categories being drawn only where the fitted model gives them probability. Rows and columns of the data are kept, requests do not influence later ones and invalid ones are rejected. The out-of-sample tuner predicts every variable, fold by fold, from its Markov blanket in the graph estimated on the fold's training part, scores a configuration by the mutual information of pooled predictions and truth, and selects the best score or, with the sparsity penalty, the smallest average blanket among the configurations the permutation test cannot tell from the best (the best itself if none of them is smaller).",
     ["inputs", "histories"],
     "For every combination of variable kinds, every set of interventions and mechanisms, every history of requests; for every small graph per fold and every fold scheme.",
     "Tests check one graph.",
     ["lingam/experimental/cdg.py", "lingam/experimental/oct.py"],
     [("generation", "lingam/experimental/cdg.py:generate"), ("Markov blanket", "lingam/experimental/oct.py:_get_mb"), ("sparsity penalty", "lingam/experimental/oct.py:_sparsity_penalty")],
     "exhaustive enumeration of small graphs and interventions vs. reference interpreter",
     "Complete within bounds.")

prop("C22", "Mixed-data model search returns a valid acyclic weighted graph",
     "For mixed discrete/continuous data, whatever acyclic graph the continuous optimisation ends in, the returned graph is acyclic with zero diagonal, of the right size, contains no coefficient below the threshold and keeps the coefficients of the edges it keeps. With the local search it is the best, under the penalised log-likelihood of the variables given their parents (linear for continuous, logistic or Poisson for discrete ones), of the acyclic re-orientations of that graph and of the single-edge deletions and additions the search makes next; without it, it is the thresholded optimum itself.",
     ["inputs"],
     "For every answer of the optimiser that is a DAG on up to 4 variables, every mixture of variable kinds, data from different graphs.",
     "Tests fit one dataset.",
     ["lingam/lim.py", "lingam/utils/__init__.py"],
     [("local search and score", "lingam/lim.py:_estimate_LiM"), ("likelihood of a variable", "lingam/utils/__init__.py:likelihood_i")],
     "exhaustive exploration of starting graphs of the local search on small mixed data",
     "Complete within bounds.")

prop("C24", "Order-based methods return what their published criterion selects, on any data",
     "Whether or not the data follow the model, the direct methods choose at every step the variable with the smallest dependence measure (sum over the others of squared negative differences of mutual information, pooled over groups by size, or kernel mutual information) and go on with the residuals; the high-dimensional method chooses the variable whose largest (over the remaining variables) smallest (over all conditioning sets of the given size) moment statistic is least, whatever the unit of the data; the ICA-based method returns an order of the graph left after the best assignment of components to variables and dropping the fewest smallest entries; the nonlinear residual-based method puts the variable with the least dependent residual last and keeps an edge exactly when the residual without that parent tests dependent on the predecessors. Linear coefficients are the least-squares coefficients on the predecessors the adaptive lasso keeps (by cross-validation when there are not more samples than variables).",
     ["inputs", "configurations"],
     "For every data set, every setting of the criterion and every answer of the independence test or of the independent component analysis.",
     "Tests have one data set that follows the model, on which many wrong criteria give the same answer.",
     ["lingam/direct_lingam.py", "lingam/high_dim_direct_lingam.py", "lingam/resit.py", "lingam/ica_lingam.py", "lingam/multi_group_direct_lingam.py", "lingam/utils/__init__.py"],
     [("pairwise measure", "lingam/direct_lingam.py:_search_causal_order"), ("moment statistics", "lingam/high_dim_direct_lingam.py:_calc_taus"), ("edge removal", "lingam/resit.py:_remove_edges"), ("assignment and order", "lingam/ica_lingam.py:fit"), ("adaptive lasso", "lingam/utils/__init__.py:predict_adaptive_lasso")],
     "exhaustive enumeration of tiny data sets, unmixing matrices and verdict functions vs. reference criteria",
     "Complete for the stated alphabets; families of unstructured data above them. Ties of a statistic are skipped.")

prop("C23", "Latent-factor models report the thresholded solution of the stated problem",
     "LiNA scores the latent factors by least squares on the loadings of the factor analysis, in the given scales, and asks for weights without self-loops that minimise the chosen loss plus the L1 penalty plus the augmented-Lagrangian acyclicity terms; it goes on, with the multipliers its history implies, until the cyclicity is within the tolerance or a limit is reached, and reports the last solution without the weights below the threshold (row to column) together with the loadings; what it reports has no self-loop. MD-LiNA does the same for the factors shared by all domains, each domain's factors in its own scale, and reports the shared graph in the order of the factors of the first domain, whatever order and signs the shared factors came out in.",
     ["inputs", "configurations", "schedules"],
     "For every sequence of answers of the numerical optimiser, every loss, penalty, threshold, tolerance and limit; for every matching of shared factors to the domains' factors.",
     "Tests only run the fit once.",
     ["lingam/lina.py"],
     [("dual ascent", "lingam/lina.py:_estimate_LiNA"), ("factor scores and scales", "lingam/lina.py:fit"), ("matching of shared factors", "lingam/lina.py:MDLiNA.fit")],
     "exhaustive exploration of the answers of the optimiser to the real dual-ascent loop; objective compared with an independent one at every call",
     "Complete within bounds.")

prop("C25", "Convergence of the latent-factor (LiNA) optimiser",
     "The latent-factor estimators converge to the factor model that generated the data and return an acyclic graph among the latent factors.",
     ["inputs"],
     "For every dataset of the model class.",
     "Tests only check shapes.",
     ["lingam/lina.py"],
     [("augmented Lagrangian", "lingam/lina.py:fit")],
     "n/a", "n/a", claimed=False,
     reason="the guarantee is convergence of a non-convex continuous optimiser on real-valued data; there is no finite set of executions whose exhaustive exploration decides it, and thresholded outputs are not guaranteed acyclic by the method")
