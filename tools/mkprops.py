import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="src/SALib/"
p("C01","Uniform scaling maps the unit cube exactly onto the stated bounds",
 "Scaling unit samples for a problem without distributions turns every entry u of column j into lower_j + u*(upper_j - lower_j), in place, so every scaled value lies within that parameter's bounds and column order and row order are untouched; unscaling is its exact inverse up to rounding. The problem is marked as scaled after scaling. If any lower bound is not strictly below its upper bound, scaling and unscaling raise ValueError instead of producing samples.",
 ["inputs"],"every sample matrix in [0,1]^(NxD), every N, D >= 1 and every list of bounds, legal or not",
 "Tests scale a handful of 2- and 3-column matrices; the claim is about every size, entry and bound, and about which column's bound is used.",
 [S+"util/__init__.py",S+"util/util_funcs.py"],
 [("bounds check","util_funcs._check_bounds"),("in-place affine map","util/__init__.py _scale_samples, scale_samples, _unscale_samples")])
p("C02","Non-uniform scaling applies each parameter's own distribution",
 "When distributions are given, column j of the scaled sample is the inverse CDF of parameter j's named distribution (unif, logunif, triang, norm, truncnorm, lognorm, weibull), with that parameter's own distribution parameters, applied entrywise to column j of the unit sample; the input matrix is left untouched. A different number of distributions than columns, an unknown name, or illegal distribution parameters (non-positive scale, shape or standard deviation, reversed uniform, log-uniform or truncation bounds, triangular peak outside [0,1) or start not below end) raise ValueError.",
 ["inputs"],"every unit sample matrix, every D, every assignment of the seven distributions to columns with every legal and illegal parameter vector",
 "Tests fix one column layout per distribution; they do not combine distributions, permute them over columns or explore the illegal region.",
 [S+"util/__init__.py"],[("per-column dispatch on dists","util/__init__.py _nonuniform_scale_samples"),("mismatch check","util/__init__.py scale_samples")])
p("C03","Sobol and Saltelli designs have the exact radial A/AB/BA/B row structure",
 "For every base point i the design contains one consecutive block of rows: a row A_i; for each group, in order of first appearance, A_i with exactly that group's columns taken from B_i; if second-order indices are requested, for each group B_i with exactly that group's columns taken from A_i; and last the row B_i. A_i and B_i are the first and second halves of point skip+i of one 2D-dimensional Sobol' sequence, and the matrix has exactly N*(2G+2) or N*(G+2) rows and D columns. Scaling happens after the blocks are assembled, so within a block unchanged columns hold identical values.",
 ["inputs","configurations"],"every N, D, grouping of the parameters (interleaved too), first/second order, skip, scrambling and seed, for both the sobol and saltelli samplers",
 "Tests compare a few small fixed matrices; the row/column arithmetic must hold for every N, D and grouping.",
 [S+"sample/sobol.py",S+"sample/saltelli.py",S+"util/__init__.py"],
 [("triple nested copy loop with running row index","sample/sobol.py sample; sample/saltelli.py sample"),("group matrix","util/__init__.py compute_groups_matrix")])
p("C04","Sobol analysis computes the documented estimators on the matching rows",
 "Given outputs in design order, the analysis pairs each base point's A, AB_j, BA_j and B outputs correctly and returns, for every group j, S1_j = mean(B*(AB_j-A))/var(A,B), ST_j = mean((A-AB_j)^2)/(2 var(A,B)) and, for j<k, S2_jk = mean(BA_j*AB_k - A*B)/var(A,B) - S1_j - S1_k, all evaluated on the outputs after standardisation; S2 entries with j >= k are NaN. Scaling the outputs by a positive or negative factor and shifting them changes no index. Confidence half-widths are the normal quantile of (1+conf_level)/2 times the sample standard deviation of the indices over the resamples, each resample drawing base points with replacement, the same points for all matrices.",
 ["inputs"],"every output vector of every admissible length, every number of parameters or groups, first/second order and confidence setting",
 "Tests look at regression values of one or two models; a mis-strided or mis-paired row shows only for some D, order and grouping.",
 [S+"analyze/sobol.py"],
 [("row separation by stride","analyze/sobol.py separate_output_values"),("estimators","analyze/sobol.py first_order, total_order, second_order"),("bootstrap","analyze/sobol.py sobol_analyze loops")])
p("C05","Parallel Sobol analysis returns what serial analysis returns",
 "For the same outputs, options and seed, running the Sobol analysis in parallel, with any number of worker processes, yields the same S1, ST and S2 values, the same confidence intervals and, when requested, the same stored resample arrays as the serial run, for every parameter or group and every pair.",
 ["schedules","configurations"],"every number of workers, parameters, groups, order setting and completion order of the workers",
 "Tests run one worker count on one model and compare a regression value; the task partition must be exhaustive and order-preserving for all of them.",
 [S+"analyze/sobol.py"],
 [("task list and its partition","analyze/sobol.py create_task_list"),("worker","analyze/sobol.py sobol_parallel"),("reassembly","analyze/sobol.py Si_list_to_dict")])
p("C06","The built-in Sobol' sequence is the Joe-Kuo (t,s)-sequence in base 2",
 "Point 0 is the origin, every coordinate is an integer multiple of 2^-31 in [0,1), and every coordinate on its own is a base-2 van der Corput permutation: for each k, any aligned run of 2^k consecutive points puts exactly one point in each interval [i/2^k,(i+1)/2^k). Coordinate d uses the direction numbers of Joe and Kuo's published table (new-joe-kuo-6) and its primitive polynomial recurrence. Prefixes agree: the first n points of a longer request equal the n-point request; requests beyond the table's dimensions or for more than 2^31 points raise ValueError.",
 ["inputs"],"every N below 2^31 and every one of the dimensions of the table (21200 rows and the first coordinate)",
 "Tests compare only the first points of low dimensions; a wrong table entry or recurrence shows only in one dimension and from one point on.",
 [S+"sample/sobol_sequence.py",S+"sample/directions.py"],
 [("direction-number recurrence and Gray-code update","sample/sobol_sequence.py sample"),("index of lowest zero bit","sample/sobol_sequence.py index_of_least_significant_zero_bit"),("table","sample/directions.py")])
p("C07","Latin hypercube samples hit every stratum of every parameter exactly once",
 "For every N, each column of the unscaled Latin hypercube design has exactly one point in each of the N equal-probability strata; when groups are given, all columns of a group use the same permutation of strata while different groups are permuted independently. The result has exactly N rows and D columns, then scaled by the problem's bounds or distributions.",
 ["inputs"],"every N, D, grouping and random stream",
 "Tests check one or two seeds and N values; stratification must hold for every seed, N, D and grouping.",
 [S+"sample/latin.py"],[("cell draw plus permutation per column/group","sample/latin.py sample, _sample_groups")])
p("C08","Morris trajectories move one group at a time by the documented step on the grid",
 "Every Morris trajectory has G+1 points whose coordinates all lie on the p-level grid {0,1/(p-1),...,1} of the parameter range; consecutive points differ in all parameters of exactly one group and in nothing else, each by exactly delta = p/(2(p-1)) of the range, up or down; and each group is moved exactly once per trajectory. The design is exactly N such trajectories stacked in order.",
 ["inputs"],"every number of trajectories, even number of levels, number of parameters, grouping and random stream",
 "Tests check a few generated trajectories with mocked random numbers; the claim quantifies over all draws, groupings and level counts.",
 [S+"sample/morris/morris.py",S+"util/__init__.py"],
 [("trajectory matrix algebra","sample/morris/morris.py _generate_trajectory, _compute_b_star, _generate_p_star, _generate_x_star"),("stacking","sample/morris/morris.py _sample_morris"),("delta","util/__init__.py _compute_delta")])
p("C09","Optimal Morris trajectories are a best set of distinct whole trajectories",
 "Selecting k optimal trajectories out of N returns exactly k different ones of the N input trajectories, each copied whole and unmodified; brute-force selection returns a set whose spread score (root of the summed squared pairwise trajectory distances) is maximal over all k-subsets, and local selection returns k distinct indices. The trajectory distance is symmetric, zero for a trajectory with itself, and equals the sum of Euclidean distances over all pairs of their points. Requests with k not below N, k<2 or (brute force) N too large are refused with ValueError.",
 ["inputs"],"every set of N trajectories, every k and both selection strategies",
 "Tests use one hard-coded set of 4-6 trajectories; maximality and distinctness must hold for every input set and tie pattern.",
 [S+"sample/morris/strategy.py",S+"sample/morris/local.py",S+"sample/morris/brute.py",S+"sample/morris/morris.py"],
 [("distance matrix","sample/morris/strategy.py compute_distance, compute_distance_matrix"),("selection","sample/morris/brute.py; sample/morris/local.py"),("copying out","sample/morris/strategy.py compile_output")])
p("C10","Morris indices are the statistics of the true elementary effects",
 "For each trajectory and each parameter or group, the elementary effect is the output after the move minus the output before it, signed so that it is the effect of an increase, divided by delta (of the unit range, or of the scaled parameter's standard-deviation ratio when scaling is on); mu is their mean over trajectories, mu_star the mean of their absolute values and sigma their sample standard deviation (ddof 1). For a group the reported mu, mu_star and confidence half-width are the means over the parameters in it, and sigma is NaN unless it has a single one. Each effect is attributed to the parameter or group that actually moved, whatever order the moves were made in.",
 ["inputs"],"every Morris design, output vector, level count, grouping and scaling flag",
 "Tests pin a few hand-made trajectories; attribution and sign must be right for every order and direction of moves.",
 [S+"analyze/morris.py"],
 [("elementary effects","analyze/morris.py _compute_elementary_effects and helpers"),("statistics","analyze/morris.py analyze, _compute_grouped_sigma, _compute_mu_star_confidence")])
p("C11","FAST design follows the search curve with one block per driver parameter",
 "The FAST sample has N*D rows; in block i row r, parameter j takes the value 1/2 + arcsin(sin(w_ij*s_r + phi_i))/pi of the unit range with s_r = 2*pi*r/N, where parameter i is driven with the base frequency floor((N-1)/(2M)), the other parameters take the complementary frequencies (each at least 1 and at most max(1, base/(2M))), and the phase is one random number per block. Every unscaled value is in [0,1]. N <= 4M^2 raises ValueError.",
 ["inputs"],"every N > 4M^2, M, D and random phase",
 "Tests pin one numerical design; the frequency assignment must be right for every D, N and M, including when D exceeds the number of distinct complementary frequencies.",
 [S+"sample/fast_sampler.py"],[("frequency set and search curve","sample/fast_sampler.py sample")])
p("C12","FAST and RBD-FAST indices are the right spectral fractions",
 "For each parameter the FAST analysis uses exactly that parameter's block of N outputs and returns S1 = the share of spectral variance at the first M harmonics of the base frequency and ST = 1 minus the share below half the base frequency, both taken from the same one-sided periodogram; so 0 <= S1 and ST <= 1, both are unchanged by shifting or scaling the outputs. RBD-FAST reorders outputs so that each parameter runs up through its odd-ranked and down through its even-ranked values, and returns the share at the first M harmonics with the documented bias correction, independent of the order in which the (x, y) samples were supplied when parameter values are distinct.",
 ["inputs"],"every output vector, N, M and D",
 "Tests compare Ishigami regression values; harmonic indices, block boundaries and normalisation must be right for every N, M, D.",
 [S+"analyze/fast.py",S+"analyze/rbd_fast.py"],
 [("periodogram fractions","analyze/fast.py compute_orders"),("reordering and unskewing","analyze/rbd_fast.py permute_outputs, compute_first_order, unskew_S1")])
p("C13","Finite-difference designs perturb one parameter per row; DGSM uses those rows",
 "Each block of the finite-difference design is a base row followed by D rows, the j-th of which differs from the base row only in parameter j, by the relative step times the base value, pulled back inside the problem's range so that no uniform parameter leaves its bounds; parameters with other distributions are not confined to the numbers that parameterise the distribution. The DGSM analysis pairs those same rows: vi_j is the mean of the squared difference quotients (output change over input change) of parameter j, vi_std their standard deviation, and dgsm_j = vi_j * (upper_j-lower_j)^2 / (pi^2 * variance of the base-row outputs).",
 ["inputs"],"every N, D, step, bounds, distribution and output vector",
 "Tests only check one regression model; pairing and clipping must be right for every block, column and bound.",
 [S+"sample/finite_diff.py",S+"analyze/dgsm.py"],[("block construction and clipping","sample/finite_diff.py sample"),("difference quotients","analyze/dgsm.py analyze, calc_vi_stats, calc_dgsm")])
p("C14","Fractional factorial designs are orthogonal fold-overs with correct contrasts",
 "The fractional factorial design has 2k rows, k the smallest power of two not below the number of parameters, every entry at its parameter's lower or upper bound; every column is balanced, any two columns of the unscaled design are orthogonal, and the second half is the first with every level flipped. The main effect of a parameter is the sum of the outputs at its high level minus the sum at its low level divided by the number of rows, and each reported interaction is the same contrast over the elementwise product of the two parameters' columns. Repeating the sampling for the same problem gives the same design and leaves the problem's parameters as the user gave them.",
 ["inputs"],"every number of parameters and every output vector",
 "Tests check the 4- and 8-parameter designs; orthogonality and padding with dummies must hold for all sizes.",
 [S+"sample/ff.py",S+"analyze/ff.py"],[("Hadamard contrast and fold-over","sample/ff.py generate_contrast, find_smallest, extend_bounds, sample"),("contrasts","analyze/ff.py analyze, interactions")])
p("C15","Group definitions are honoured consistently by sampling and analysis",
 "Group names are taken in order of first appearance and never duplicated; the membership matrix has exactly one 1 per parameter, in the column of that parameter's group; an absent or empty group list, or one naming each parameter itself, means one group per parameter. A group list of the wrong length is refused with ValueError where groups are completed from parameter names, and a problem specification with a single group covering every parameter is refused by analysis. All samplers and analysers that support groups agree on the number of groups, so the design's row count is what the analysis expects.",
 ["inputs"],"every number of parameters and every group list",
 "Tests use contiguous two-group problems; interleaved, singleton and unordered groupings are not covered.",
 [S+"util/__init__.py",S+"util/util_funcs.py",S+"util/problem.py"],
 [("names","util/__init__.py extract_group_names"),("matrix","util/__init__.py compute_groups_matrix"),("single-group test","util_funcs._check_groups, util/problem.py analyze")])
p("C16","A seed makes every sampler and analyser reproducible",
 "With an explicit integer seed (0 included), or a freshly made generator seeded alike, a sampler or analyser returns identical results on every call in every process, regardless of the state of NumPy's global random generator and of calls made before; every random draw that affects the result depends on that seed.",
 ["inputs","histories"],"every public sampler and analyser with a seed parameter, every seed and every prior history of random draws",
 "Tests call each function with one non-zero seed in a fresh state; a draw taken from another stream, or a seed value treated as absent, goes unseen.",
 [S+"sample/",S+"analyze/",S+"util/util_funcs.py"],[("seeding at entry","each sample()/analyze(): np.random.default_rng / handle_seed / np.random.seed")])
p("C17","Sampling and analysis leave the caller's data untouched",
 "Analysing never changes the caller's sample matrix, output vector or problem definition; sampling never changes the caller's problem other than the documented scaled marker (and the group list being filled in where none was given); repeating a call with the same arguments and seed therefore gives the same answer.",
 ["inputs","histories"],"every public sampler and analyser and every argument",
 "Tests do not compare arguments before and after the calls.",
 [S+"analyze/",S+"sample/",S+"util/__init__.py"],[("working on copies","each analyze(); in-place scaling only of matrices the sampler itself allocated")])
p("C18","The problem-specification workflow keeps samples, results and analyses in step",
 "A problem specification's evaluate step calls the user's function on exactly the stored samples with the extra arguments given and stores what it returns; analyze passes the stored samples and results to the chosen method and stores its result, one per output name when there are several outputs, each computed from its own column. Replacing samples drops results and analyses computed from older ones, replacing results drops older analyses, set samples of the wrong width and set results with another number of rows than the samples or another number of columns than the outputs are refused with an error, and evaluating or analysing before the required step raises an error.",
 ["histories","inputs"],"every sequence of sample, set_samples, evaluate, set_results, analyze calls and every number of outputs",
 "Tests follow the straight path sample-evaluate-analyze; stale state after re-sampling or setting is not explored.",
 [S+"util/problem.py",S+"util/results.py"],
 [("state setters","util/problem.py samples/results properties, sample, evaluate, analyze"),("per-output split","util/problem.py analyze")],
 state=[("_samples/_results/_analysis","stored design, outputs, analyses","util/problem.py")])
p("C19","Parallel and distributed evaluation returns results in sample order",
 "Evaluating a model in parallel, with any number of processes, gives the same results array, row for row, as evaluating it serially: every sample row is evaluated exactly once and results are stitched back in sample order, for models returning one value or several; extra arguments reach the function. Parallel analysis of several outputs gives each output name the same result as serial analysis.",
 ["schedules","inputs"],"every number of processes, rows, outputs and worker completion order",
 "Tests use one process count that divides nothing awkwardly and one model; chunk boundaries and order are not explored.",
 [S+"util/problem.py"],[("chunking and concatenation","util/problem.py evaluate_parallel, evaluate_distributed, analyze_parallel, _setup_result_array, _collect_results")])
p("C20","Parameter files are read faithfully",
 "Reading a parameter file yields, for every non-comment line in order, its name, lower and upper bound, group and distribution; a missing or NA group stands for the parameter itself, a missing distribution for uniform; groups collapse to none when each parameter is its own group and distributions to none when all are uniform. The number of variables equals the number of names, and a file with only one group over several parameters is refused with ValueError.",
 ["inputs"],"every well-formed parameter file: any number of lines, comment lines anywhere, 3 to 5 columns, any delimiter given",
 "Tests read about five fixed files.",
 [S+"util/util_funcs.py"],[("row loop and defaulting","util_funcs.read_param_file")])
p("C21","The command line runs exactly the library call its options describe",
 "For every method, running the command line sampler writes the same numbers as calling the sampler with the parsed options, to the requested precision and delimiter, and running the command line analyser analyses the chosen output column of the chosen file with the parsed options: every option offered (seed, samples, order, levels, skip, resamples, confidence level, scaling, selection strategy, ...) reaches the call unchanged.",
 ["inputs","configurations"],"every method and every combination of its options",
 "Tests run each command with one option set and look at exit status or a regression value, so a dropped or swapped option goes unseen.",
 [S+"sample/common_args.py",S+"analyze/common_args.py",S+"scripts/salib.py",S+"sample/",S+"analyze/"],
 [("argument parsers","cli_parse in each module, common_args.setup"),("dispatch","cli_action in each module")])
p("C22","PAWN statistics are taken over a proper partition of the sample",
 "For each parameter the PAWN analysis slices that parameter's range at its S+1 equally spaced quantiles, so that the slices cover the sample from the smallest to the largest value, computes the Kolmogorov-Smirnov distance between the outputs of each non-empty slice and all outputs, and reports their minimum, mean, median, maximum and coefficient of variation over the slices; hence 0 <= minimum <= median <= maximum <= 1 and minimum <= mean <= maximum for every number of slices S.",
 ["inputs"],"every sample, output vector and number of slices",
 "Tests use the default S=10 on one model.",
 [S+"analyze/pawn.py"],[("quantile slices and statistics","analyze/pawn.py analyze")])
p("C23","Delta analysis partitions by rank and bootstraps without distorting the estimate",
 "Delta analysis splits the sample by the rank of each parameter into classes that together contain every sample exactly once and whose sizes differ by at most one; S1 is the between-class variance of the output divided by its total variance, so 0 <= S1 <= 1. Resampling draws as many points as the sample size it was given with replacement, the bias-reduced delta is twice the estimate on one such draw minus the mean of the estimates on the bootstrap draws, and confidence half-widths are the normal quantile times the standard deviation of the resamples.",
 ["inputs"],"every sample, output vector, number of resamples and resample size",
 "Tests check regression values with tolerances wide enough to hide a lost or duplicated class.",
 [S+"analyze/delta.py"],[("rank classes","analyze/delta.py analyze, calc_delta, sobol_first"),("bias reduction","analyze/delta.py bias_reduced_delta, sobol_first_conf")])
p("C24","Regional sensitivity compares inside-bin and outside-bin outcomes for every bin",
 "Regional sensitivity analysis divides the conditioning variable (each parameter's values for target X, the outputs for target Y) into the requested number of equal-probability bins and reports for each bin and each parameter or group the two-sample distance between in-bin and out-of-bin values, NaN for bins without data, without complement or with a single distinct output; the table has exactly one row per bin for every number of bins and one column per parameter or group. Identical in- and out-of-bin samples give the smallest statistic and permuting the (x, y) pairs changes nothing.",
 ["inputs"],"every sample, output vector, number of bins, target and grouping",
 "Tests use bins=10 on one model without groups.",
 [S+"analyze/rsa.py"],[("bin sequence and Cramer-von Mises statistic","analyze/rsa.py analyze, rsa")])
p("C25","Discrepancy indices are normalised per parameter or group",
 "Discrepancy analysis computes, for every parameter, the discrepancy of the two-column set (that parameter rescaled to [0,1] by its bounds, the output by its own minimum and maximum), divided by the sum over all parameters, so the values are non-negative and sum to one over the parameters; a group is reported as the mean over its parameters. Rescaling the outputs by a positive factor or shifting them, or rescaling a parameter together with its bounds, changes nothing, and the reported names are those of the values' parameters or groups.",
 ["inputs"],"every sample, output vector and supported discrepancy method",
 "Tests check one model's ranking for one method.",
 [S+"analyze/discrepancy.py"],[("pairwise discrepancies and normalisation","analyze/discrepancy.py analyze")])
p("C26","HDMR sensitivity indices decompose the variance consistently",
 "For each component function f of the HDMR expansion (the hdmr and the enhanced_hdmr analyser) the total index S, the structural index Sa and the correlative index Sb are the means over the bootstrap runs of cov(f,Y)/V, var(f)/V and cov(f, sum of the other component functions)/V, all three from that run's outputs and component functions (up to dividing by R or R-1), so that S - Sa - Sb is only the covariance of f with the emulator's residual; the total index ST of a parameter sums S over exactly the terms that contain that parameter; every term's label names exactly its parameters; the F-test judges first-, second- and third-order terms with the number of coefficients of their own order and the selection count of a term is the number (enhanced: percentage) of runs that selected it; confidence half-widths are the normal multiplier times the standard deviation over the runs.",
 ["inputs"],"every number of parameters, maximum order 1 to 3, number of bootstrap runs and data set",
 "Tests compare one model's table; term-to-parameter mapping must be right for every D and order.",
 [S+"analyze/hdmr.py"],[("covariance decomposition","analyze/hdmr.py ancova"),("totals and labels","analyze/hdmr.py _finalize"),("F-test","analyze/hdmr.py f_test")])
p("C27","Test functions equal their published formulas, row by row",
 "Ishigami, Sobol-G (with shift and curvature), the linear models, Oakley-O'Hagan and the lake problem evaluate each row of the input independently by their published formula, so the value of a row does not depend on other rows or on their number; Sobol-G's partial variances satisfy S1_i = (1/(1+2a)...)-type closed forms summing to at most one, and inputs outside its domain or of wrong type or parameter length raise the documented errors. The input array is not modified.",
 ["inputs"],"every input matrix, number of rows and admissible parameter vector",
 "Tests evaluate a few fixed points.",
 [S+"test_functions/"],[("formula evaluation","test_functions/Ishigami.py, Sobol_G.py, linear_model_1.py, linear_model_2.py, oakley2004.py, lake_problem.py")])
p("C28","Result tables carry each index next to the right parameter, group or pair",
 "Converting an analysis result to tables yields one row per parameter (or per group when groups were used), in the order of the problem, each holding exactly that parameter's indices; second-order tables have one row per unordered pair j<k labelled with that pair and holding the entry of that pair.",
 ["inputs"],"every analysis method, number of parameters and grouping",
 "Tests check column names and counts on one model.",
 [S+"util/results.py",S+"analyze/"],[("tables","util/results.py ResultDict.to_df; analyze/sobol.py to_df, Si_to_pandas_dict; analyze/{morris,ff,rsa,discrepancy,hdmr}.py to_df")])
p("C29","Malformed outputs and options are rejected, never silently analysed",
 "An output vector whose length is not a multiple of the design's block length (Sobol, Morris, DGSM) or does not match the design (FAST: not a multiple of the number of parameters) is refused with an error instead of being truncated into wrong indices, and a confidence level outside (0,1) is refused by every analyser that takes one.",
 ["inputs"],"every output length and every confidence level",
 "Tests try one wrong length per method at most.",
 [S+"analyze/sobol.py",S+"analyze/morris.py",S+"analyze/fast.py",S+"analyze/dgsm.py",S+"analyze/delta.py",S+"analyze/rbd_fast.py"],
 [("length and range checks","analyze(): Y.size % ... and conf_level tests")])
p("C30","Indices converge to the true sensitivity of the model",
 "As the number of samples grows, the indices estimated by every method converge to the exact variance-based, derivative-based or density-based sensitivity of the model.",
 ["inputs"],"every square-integrable model as the sample size tends to infinity",
 "Tests check one sample size with wide tolerances.",
 [S+"sample/",S+"analyze/"],[("design plus estimator","sample/*.py with analyze/*.py")])
p("C31","Enhanced HDMR emulation selects and fits its polynomial expansion correctly",
 "Enhanced HDMR fits an orthonormal polynomial expansion whose retained terms pass the significance test, and its emulator reproduces a model that lies in the span of the expansion.",
 ["inputs"],"every data set, order and polynomial degree",
 "Tests compare regression values for one data set.",
 [S+"analyze/enhanced_hdmr.py"],[("extended-basis least squares and F-test","analyze/enhanced_hdmr.py")])
p("C32","Plots show the values of the analysis result",
 "Every plot helper draws exactly the indices and confidence intervals of the result it is given, next to the right parameter names.",
 ["inputs"],"every analysis result",
 "There is no image comparison for most plots.",
 [S+"plotting/"],[("bar, heatmap, covariance and HDMR plots","plotting/*.py")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: 
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
