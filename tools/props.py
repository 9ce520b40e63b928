"""The property table."""

NOT_APPLICABLE = {}

M = "src/skfolio/measures/_measures.py"

P = "src/skfolio/portfolio/_portfolio.py"
BASE = "src/skfolio/portfolio/_base.py"
MPP = "src/skfolio/portfolio/_multi_period_portfolio.py"
TOOLS = "src/skfolio/utils/tools.py"
SORT = "src/skfolio/utils/sorting.py"
POP = "src/skfolio/population/_population.py"
EQ = "src/skfolio/utils/equations.py"
WF = "src/skfolio/model_selection/_walk_forward.py"
CPCV = "src/skfolio/model_selection/_combinatorial.py"
CVP = "src/skfolio/model_selection/_validation.py"

CVX = "src/skfolio/optimization/convex/_base.py"
MR = "src/skfolio/optimization/convex/_mean_risk.py"
RBF = "src/skfolio/optimization/convex/_risk_budgeting.py"
MDF = "src/skfolio/optimization/convex/_maximum_diversification.py"
DRF = "src/skfolio/optimization/convex/_distributionally_robust.py"
HIER = "src/skfolio/optimization/cluster/hierarchical/_base.py"
HRP = "src/skfolio/optimization/cluster/hierarchical/_hrp.py"
HERC = "src/skfolio/optimization/cluster/hierarchical/_herc.py"
NCO = "src/skfolio/optimization/cluster/_nco.py"
STACK = "src/skfolio/optimization/ensemble/_stacking.py"
STATS = "src/skfolio/utils/stats.py"
MU = "src/skfolio/moments/expected_returns/"
COV = "src/skfolio/moments/covariance/"

BL = "src/skfolio/prior/_black_litterman.py"
FM = "src/skfolio/prior/_factor_model.py"
EP = "src/skfolio/prior/_empirical.py"
CLU = "src/skfolio/cluster/_hierarchical.py"
DIS = "src/skfolio/distance/_distance.py"
RET = "src/skfolio/preprocessing/_returns.py"
PRE = "src/skfolio/pre_selection/"
UE = "src/skfolio/uncertainty_set/_empirical.py"
UB = "src/skfolio/uncertainty_set/_bootstrap.py"
BOOT = "src/skfolio/utils/bootstrap.py"
COP = "src/skfolio/distribution/copula/"
DBASE = "src/skfolio/distribution/_base.py"
UNIV = "src/skfolio/distribution/univariate/"
SCORER = "src/skfolio/metrics/_scorer.py"
NAIVE = "src/skfolio/optimization/naive/_naive.py"
OBASE = "src/skfolio/optimization/_base.py"
TOOLSF = "src/skfolio/utils/tools.py"
VINE = "src/skfolio/distribution/multivariate/_vine_copula.py"
VINEU = "src/skfolio/distribution/multivariate/_utils.py"
SYN = "src/skfolio/prior/_synthetic_data.py"

PROPS = [
    dict(
        id="C01",
        title="Dispersion and moment measures equal their definitions on every return series",
        statement="For every return series and every (given or defaulted-to-the-mean) minimum acceptable return, the mean, variance, standard deviation, semi-variance, semi-deviation, mean absolute deviation, first and fourth lower partial moments, third and fourth central moments, skew, kurtosis and Gini mean difference equal their documented mathematical definitions (n-1 normalisation for variance and semi-variance, n for the others). For every weight vector the effective number of assets equals one over the sum of squared weights.",
        over=["inputs"],
        text="all real return series up to the stated length, all target returns including exactly zero, all weight vectors",
        why="The tests compare a handful of fixed series with stored numbers; they cannot distinguish a wrong branch that is only taken for other values (a target of zero, ties, returns all above the target).",
        files=[M],
        mech=[("measure functions", M)],
        observe=["return value of each function in skfolio.measures"],
    ),
    dict(
        id="C02",
        title="Tail risk measures equal their definitions for every series and level",
        statement="For every return series and confidence level beta, VaR is the smallest observed loss exceeded by fewer than (1-beta)*n observations, CVaR is the minimum of the Rockafellar-Uryasev function (attained at VaR), the worst realization is the largest loss, and the entropic risk measure equals its formula for every risk aversion. EVaR is the entropic risk at a strictly positive risk aversion and is never below CVaR.",
        over=["inputs"],
        text="all real return series up to the stated length and all beta in [0,1)",
        why="Whether (1-beta)*n is an integer, how ties are ranked and which order statistic is used changes the branch taken; tests only use a few levels on one series.",
        files=[M],
        mech=[("value_at_risk / cvar / evar", M)],
        observe=["return value of the functions"],
    ),
    dict(
        id="C03",
        title="Cumulative returns and drawdown measures equal their definitions",
        statement="For every return series, compounded or not, cumulative returns and drawdowns follow the documented recursion (distance to the running peak of cumulative returns). Maximum drawdown, average drawdown, ulcer index, drawdown at risk and CDaR are the maximum, mean, root mean square, order statistic and tail mean of those drawdowns at every confidence level.",
        over=["inputs"],
        text="all real return series up to the stated length (above -100% when compounded), all beta",
        why="Running maxima and order statistics branch on the relative order of the values; tests fix a single order.",
        files=[M],
        mech=[("get_cumulative_returns / get_drawdowns / drawdown measures", M)],
        observe=["return value of the functions"],
    ),
    dict(
        id="C04",
        title="Portfolio returns, costs and composition for every way of passing inputs",
        statement="A portfolio's returns equal the weighted asset returns minus the transaction costs on the change from the previous weights minus the management fees, in every observation. Weights, previous weights, costs and fees mean the same thing whether given as scalar, sequence, array, (partial) name-to-value mapping or left out. The reported composition lists exactly the invested assets with their weights.",
        over=["inputs", "configurations"],
        text="all real returns, weights, previous weights, costs and fees; every combination of input forms",
        why="The combinations of input forms and the signs of weight changes multiply; tests check a few fixed portfolios.",
        files=[P, TOOLS],
        mech=[("Portfolio construction", P), ("input normalisation", TOOLS)],
        observe=["Portfolio attributes"],
    ),
    dict(
        id="C05",
        title="Portfolio measures, ratios and rolling measures are right after any update",
        statement="Every performance, risk and ratio attribute of a portfolio equals the corresponding measure of its returns with the portfolio's current settings, annualised by the factor (means and variances) or its square root (deviations and ratios), and rolling measures equal the measure of each window. Changing any setting after measures were read gives the same values as building the portfolio with that setting, copies are independent, and descriptive attributes are read-only. The fitness is the signed list of the chosen measures and decides dominance.",
        over=["inputs", "histories", "configurations"],
        text="all returns, settings and sequences of reads and setting updates within the bounds",
        why="Stale caches only show for particular read/update orders and settings, and errors in one measure are swallowed into NaN; tests read each attribute once.",
        files=[BASE, P, M],
        mech=[("measure attributes and cache", BASE), ("rolling measures", BASE)],
        observe=["Portfolio attributes and rolling_measure"],
    ),
    dict(
        id="C06",
        title="Portfolio arithmetic, copies and risk contributions are exact",
        statement="Negating, taking absolute values, rounding, scaling, dividing, adding and subtracting portfolios acts on the weights element-wise, keeps every other setting and leaves the operands unchanged; adding or subtracting is refused exactly when another input differs. Copies and unpickled portfolios have the same inputs and returns. Each asset's risk contribution is its weight times the central difference of the measure evaluated with all of the portfolio's settings.",
        over=["inputs", "configurations"],
        text="all weights, scalars, settings, costs, fees and finite-difference steps",
        why="A setting dropped by one operator or by one evaluation only shows for non-default settings; tests use defaults.",
        files=[P, BASE],
        mech=[("operators and contribution", P), ("serialisation", BASE)],
        observe=["result of operators, contribution()"],
    ),
    dict(
        id="C07",
        title="A multi-period portfolio is the concatenation of its portfolios after any edit",
        statement="After any sequence of appending, replacing, deleting, assigning portfolios or changing settings, the returns, observations and measures of a multi-period portfolio equal those of the concatenation of its current portfolios with its current settings, and neither the caller's list nor copies are affected. With the order check on, overlapping observations are refused in every way of adding portfolios and a refusal changes nothing. Arithmetic acts on each portfolio and keeps the settings.",
        over=["histories", "inputs"],
        text="all edit sequences up to the stated length, all returns, settings and observation labels",
        why="Aliasing and stale caches depend on the order of edits and reads.",
        files=[MPP, BASE],
        mech=[("portfolio list handling", MPP)],
        observe=["MultiPeriodPortfolio attributes"],
    ),
    dict(
        id="C08",
        title="Non-dominated sorting and dominance are exact",
        statement="One fitness vector dominates another exactly when it is at least as good in every objective and better in one. Non-dominated sorting returns fronts that partition the points, where each front is exactly the set of points not dominated once the earlier fronts are removed, and asking for the first front only gives that front. Portfolio comparison and population sorting follow the chosen fitness measures.",
        over=["inputs"],
        text="all real fitness matrices up to the stated size, including ties and duplicates",
        why="Fronts depend on every pairwise order of the objectives, ties included; tests compare stored fronts of one random sample.",
        files=[SORT, POP, BASE],
        mech=[("non-dominated sorting", SORT), ("population sorting", POP), ("portfolio comparison", BASE)],
        observe=["fronts and comparison results"],
    ),
    dict(
        id="C09",
        title="Population selection, statistics and tables follow its portfolios",
        statement="Sorting, minimum, maximum and quantile selection pick the portfolio with the documented rank of the measure, and filtering keeps exactly the portfolios whose name and tag match, in order. Setting parameters applies to every portfolio, returns the population and refuses unknown names before anything changes; only portfolios are ever accepted. Composition and contribution tables have one uniquely named column per portfolio with its weights or contributions.",
        over=["inputs", "histories"],
        text="all portfolio returns, weights, names, tags and quantile levels within the stated sizes",
        why="Rank selection depends on the order of the measure values and name collisions on particular name combinations.",
        files=[POP, TOOLS],
        mech=[("population methods", POP), ("unique names", TOOLS)],
        observe=["Population methods"],
    ),
    dict(
        id="C10",
        title="Textual linear constraints are converted to the equations they state",
        statement="Converting a well-formed linear expression over groups gives matrices that hold for exactly the weights satisfying the text, for every coefficient, sign, operator and spacing, including scientific notation. Malformed expressions are refused with the library's own error; unknown groups are skipped with a warning or refused as requested. Group cardinalities give one bound per known group.",
        over=["inputs", "programs"],
        text="all expressions up to the stated number of terms, with arbitrary real coefficients and weights",
        why="The grammar has thousands of short sentences and an accepted malformed sentence silently changes the constraint.",
        files=[EQ],
        mech=[("expression parser", EQ)],
        observe=["returned matrices or exception"],
        note="bounded: the coefficients and weights are decided symbolically for every sentence shape within the bounds; the sentence shapes themselves (including the malformed ones) are enumerated path by path",
    ),
    dict(
        id="C12",
        title="Weight constraints allow exactly the documented portfolios",
        statement="A mean-risk optimizer can return a weight vector exactly when it meets every requested restriction: bounds, budget or budget range, gross long and short limits, turnover, textual and matrix constraints, group limits, number of assets and thresholds. The same holds when the ratio of return to risk is maximised. Contradictory bounds are refused.",
        over=["inputs", "configurations"],
        text="every weight vector and, where stated, every limit value, for each kind of restriction",
        why="A constraint that is slightly too loose or too strict changes the optimum only when it binds, and tests look at a handful of optima.",
        files=[CVX, MR, EQ],
        mech=[("weight constraints", CVX)],
        observe=["feasibility of the problem built by MeanRisk.fit, weights_"],
        note="bounded: for a fixed small number of assets every weight vector is decided; the numerical solver is replaced by the exact set of solutions of the problem it is handed, so solver accuracy is outside",
    ),
    dict(
        id="C13",
        title="Optimized risk equals the risk reported for the portfolio",
        statement="For each risk measure of the convex optimizers, the risk that is minimised equals the documented measure of the portfolio with those weights, net of costs and fees as documented, for the given scenario returns. No weights are valued too low or too high. The minimum acceptable return, confidence level and risk-free rate enter as documented.",
        over=["inputs", "configurations"],
        text="every weight vector of two assets (and the stated symbolic returns, costs and levels)",
        why="The optimisation model is a reformulation with auxiliary variables; a reformulation that is not tight still gives plausible weights.",
        files=[CVX, MR, M],
        mech=[("risk expressions", CVX), ("measures", M)],
        observe=["objective of the problem built by MeanRisk.fit, problem_values_"],
        note="bounded: every weight vector of two assets on small scenario sets is decided; entropic measures are bounded from below for all weights and shown to be reached at fixed weights only",
    ),
    dict(
        id="C14",
        title="Mean-risk optimization solves the documented problem",
        statement="Minimum risk, maximum return, maximum utility and maximum ratio optimise the documented objective, including expected returns net of costs and fees, penalties and user terms. Minimum return, risk and tracking error limits allow exactly the portfolios that meet them, also when the ratio is maximised; the ratio portfolio never has a negative excess return. Several target values give one portfolio each, and the targets of an efficient frontier run evenly from just above the return of the least risky portfolio to the highest return.",
        over=["inputs", "configurations"],
        text="every weight vector of two assets and, where stated, every limit value, for each objective and limit",
        why="Homogenised ratio problems and combined limits have many configurations; a wrong scaling still returns plausible portfolios.",
        files=[MR, CVX],
        mech=[("mean-risk problem", MR), ("problem pieces", CVX)],
        observe=["problem built by MeanRisk.fit, weights_, problem_values_"],
        note="bounded: for a fixed scenario set every weight vector of two assets is decided; the numerical solver is replaced by the exact set of solutions of the problem it is handed",
    ),
    dict(
        id="C18",
        title="Walk-forward splits follow the calendar and never look ahead",
        statement="Walk-forward splits are exactly the documented consecutive windows: each test window starts where the previous one ended, the training window has the requested length (or starts at the beginning when expanding) and ends the purge size before the test window. With a frequency, windows start at the rebalancing dates inside the sample, shifted by the offset and mapped to the next or previous observation. The announced number of splits is the number produced.",
        over=["inputs", "configurations"],
        text="all sample sizes, window sizes and purge sizes; all observation calendars within the bounds",
        why="Off-by-one and boundary dates show only for particular calendars, offsets and remainders.",
        files=[WF],
        mech=[("split generation", WF)],
        observe=["split() and get_n_splits()"],
    ),
    dict(
        id="C19",
        title="Combinatorial purged splits partition, purge and recombine correctly",
        statement="For every sample size, number of folds and test folds, the folds partition the observations in order, every combination of test folds occurs once, and training data is everything outside the test folds, the purge and the embargo. The test folds recombine into paths that each contain every fold exactly once. The recommended number of folds minimises the documented cost.",
        over=["inputs", "configurations"],
        text="all sample sizes, folds, test folds, purge and embargo sizes within the bounds",
        why="Leakage appears only for particular remainders of the sample size and neighbouring test folds.",
        files=[CPCV],
        mech=[("split generation and paths", CPCV)],
        observe=["split(), get_path_ids(), optimal_folds_number()"],
        note="bounded: the sizes are symbolic integers that the fold arithmetic fixes along each path, so the splits are covered exhaustively within the bounds path by path; the fold recommendation is decided with symbolic real weights",
    ),
    dict(
        id="C20",
        title="Cross-validated prediction is out of sample and complete",
        statement="Cross-validated prediction fits on the training rows of each split only and predicts its test rows, with the columns, targets and parameters asked for. Sequential splits give one multi-period portfolio in chronological order; combinatorial splits give one per path covering every observation once. Shuffled or overlapping splits are refused.",
        over=["inputs", "configurations"],
        text="all returns and split layouts within the bounds",
        why="A single leaked training row changes the result only slightly on real data and would look plausible.",
        files=[CVP],
        mech=[("cross_val_predict", CVP)],
        observe=["returned portfolio or population"],
    ),
    dict(
        id="C15",
        title="Risk budgeting equalises the documented risk contributions",
        statement="For every risk measure, the risk-budgeting problem handed to the solver has exactly the documented feasible weights and minimises the measure net of costs and fees, on the budget level set, so that at its solution the risk contributions are proportional to the budgets and the returned weights sum to one. Budgets mean the same thing as an array or by name. Weight bounds, group and minimum-return constraints apply to the normalised weights.",
        over=["inputs", "configurations"],
        text="all weight vectors, scenario sets within the bounds, budgets, costs and previous weights, per risk measure",
        why="Tests compare a few optimised portfolios with stored weights; an error in how costs or previous weights enter the scaled problem moves weights slightly and only for non-zero costs.",
        files=[RBF, CVX],
        mech=[("risk budgeting problem", RBF), ("risk formulations", CVX)],
        observe=["problem solved and weights_ of RiskBudgeting"],
        note="bounded: the recorded convex problem is compared with the documented one for all weights; first-order conditions are used to relate it to risk contributions; the numerical solver is trusted",
    ),
    dict(
        id="C16",
        title="Maximum diversification maximises weighted over portfolio volatility",
        statement="For every covariance and every set of weight constraints, the problem solved by the maximum-diversification optimiser has the documented feasible weights and ranks them by the ratio of the weighted asset volatilities to the portfolio volatility. Its result is never worse than another feasible portfolio by that ratio.",
        over=["inputs", "configurations"],
        text="all weights and volatilities within the bounds, all constraint combinations listed",
        why="Tests check a single dataset; a wrong volatility vector or scaling changes the ranking only for particular volatilities.",
        files=[MDF, CVX],
        mech=[("diversification objective", MDF), ("ratio form", CVX)],
        observe=["problem solved by MaximumDiversification"],
        note="bounded: as C14, with the expected returns replaced by volatilities; the numerical solver is trusted",
    ),
    dict(
        id="C17",
        title="Distributionally robust CVaR is the worst case over the Wasserstein ball",
        statement="For every scenario set, confidence level, risk aversion and radius, the robust CVaR problem values each weight vector at least as high as the mean-CVaR objective under every distribution within the radius, and exactly at the worst case where that can be computed. With radius zero it is the plain mean-CVaR problem.",
        over=["inputs", "configurations"],
        text="all scenarios, weights and perturbations of the scenarios within the bounds",
        why="Tests compare stored weights for one radius; a wrong dual constraint is still feasible and gives plausible weights.",
        files=[DRF],
        mech=[("dual formulation", DRF)],
        observe=["problem solved by DistributionallyRobustCVaR"],
        note="bounded: exact worst case at fixed weights, lower bounds for all weights against given perturbations; the numerical solver is trusted",
    ),
    dict(
        id="C21",
        title="Hierarchical risk parity splits by inverse risk within the bounds",
        statement="Hierarchical risk parity weights sum to one, respect every minimum and maximum weight that can be met, and without binding bounds each split of the ordered assets shares the weight in inverse proportion to the risks of the two halves, each valued as an inverse-risk portfolio under the chosen measure net of costs and fees. Bounds that cannot be met are refused.",
        over=["inputs", "configurations"],
        text="all variances, returns and bounds within the sizes, all risk measures listed",
        why="Bounds interact with the bisection at several levels; tests use a few fixed bounds on one dataset.",
        files=[HIER, HRP],
        mech=[("bisection and bounds", HRP), ("unit and cluster risk", HIER)],
        observe=["weights_ of HierarchicalRiskParity"],
    ),
    dict(
        id="C22",
        title="Hierarchical equal risk contribution shares risk between and within clusters",
        statement="Hierarchical equal risk contribution weights sum to one, respect the weight bounds, and without binding bounds share the weight down the tree in inverse proportion to the risks of the sub-clusters and within each cluster in inverse proportion to the asset risks. When bounds bind, the weights are the closest feasible ones in relative deviation.",
        over=["inputs", "configurations"],
        text="all variances, returns and bounds within the sizes, all risk measures listed",
        why="The recursion depends on the shape of the tree and the number of clusters; tests check sums and stored numbers only.",
        files=[HIER, HERC, STATS],
        mech=[("top-down recursion", HERC), ("unit and cluster risk", HIER), ("relative deviation", STATS)],
        observe=["weights_ of HierarchicalEqualRiskContribution"],
    ),
    dict(
        id="C23",
        title="Nested clusters and stacking combine inner and outer portfolios",
        statement="The final weights are the inner portfolios' weights combined by the outer portfolio's weights, with each inner estimator fitted on the full data of its own assets (with all of y), and the outer estimator fitted on out-of-sample inner portfolio returns when cross-validation is used. Names, metadata and parameters of the inner estimators stay available and replaceable.",
        over=["inputs", "configurations"],
        text="all returns, inner and outer weights within the bounds, all cross-validation modes",
        why="A leak of training data into the outer fit, or mixed-up clusters, still gives valid weights on real data.",
        files=[NCO, STACK, TOOLS, CVP],
        mech=[("nested clusters", NCO), ("stacking", STACK)],
        observe=["weights_ and predictions of the two estimators"],
    ),
    dict(
        id="C26",
        title="Expected-return and covariance estimators equal their definitions",
        statement="For every return series, window, smoothing factor, degree of freedom, threshold and risk aversion, the empirical, exponentially weighted, equilibrium and shrunk means and the empirical, exponentially weighted and Gerber covariances equal their documented formulas. Covariances are symmetric with positive variances.",
        over=["inputs", "configurations"],
        text="all returns and parameters within the sizes",
        why="Tests compare stored numbers on one dataset; ties with a threshold or a window longer than the data take other branches.",
        files=[MU + "_empirical_mu.py", MU + "_ew_mu.py", MU + "_equilibrium_mu.py", MU + "_shrunk_mu.py", COV + "_empirical_covariance.py", COV + "_ew_covariance.py", COV + "_gerber_covariance.py"],
        mech=[("mean estimators", MU + "_shrunk_mu.py"), ("covariance estimators", COV + "_gerber_covariance.py")],
        observe=["mu_ and covariance_"],
    ),
    dict(
        id="C27",
        title="Denoised, detoned, repaired and implied covariances keep what they document",
        statement="Denoising averages exactly the correlation eigenvalues below the fitted noise bound and detoning removes exactly the largest ones, both keeping the variances; repairing a covariance that is not positive definite keeps the variances and leaves a good one unchanged. The implied covariance keeps the prior correlations and uses the latest implied volatilities, matched by asset name, adjusted by the premium or by the documented regression on past windows. Inputs are left unchanged and negative volatilities are refused.",
        over=["inputs", "configurations"],
        text="all eigenvalues, variances, correlations, implied volatilities and premia within the sizes",
        why="Tests store numbers for one dataset, which cannot tell a shifted eigenvalue, window or column from the right one.",
        files=[COV + "_denoise_covariance.py", COV + "_detone_covariance.py", COV + "_implied_covariance.py", STATS],
        mech=[("spectral cleaning", COV + "_denoise_covariance.py"), ("implied volatilities", COV + "_implied_covariance.py"), ("repair", STATS)],
        observe=["covariance_ and pred_realised_vols_"],
        note="bounded: fixed orthonormal eigenvectors with symbolic eigenvalues; the numerical fit of the noise variance is replaced by an arbitrary result and its objective checked separately on a coarse grid",
    ),
    dict(
        id="C28",
        title="Black-Litterman blends the prior and the views by their precision",
        statement="The posterior mean and covariance equal the Bayesian update of the prior by the views, with the uncertainty of each view proportional to its prior variance or set by its confidence, plus the risk-free rate on the mean. A view held with full confidence is met exactly and one held with none changes nothing, whichever assets or groups it names. The caller's views and confidences are left unchanged.",
        over=["inputs", "configurations"],
        text="all prior moments, views, confidences, uncertainty scales and risk-free rates within the sizes, over the listed view shapes",
        why="The update is a matrix expression in many variables; tests compare it with stored numbers for one prior and a few views.",
        files=[BL, EQ],
        mech=[("posterior update", BL), ("views to matrix", EQ)],
        observe=["prior_model_ of BlackLitterman"],
    ),
    dict(
        id="C29",
        title="Factor model moments follow from the loadings, factors and residuals",
        statement="The expected returns, returns, covariance and its square root of a factor model are those implied by the loading matrix, the intercepts and the factor prior, plus the variance of each asset's residuals against the observed factors when requested. Loadings or intercepts of the wrong shape are refused, and the loadings of the regression are those of the fitted regressors, asset by asset.",
        over=["inputs", "configurations"],
        text="all loadings, intercepts, factor moments and returns within the sizes",
        why="Transposed or swapped loadings keep every shape when assets and factors are equally many; tests use stored numbers.",
        files=[FM],
        mech=[("factor model", FM)],
        observe=["prior_model_ of FactorModel", "loading_matrix_ and intercepts_"],
        note="bounded: residuals from a two-parameter family, linear regressors replaced by given coefficients; the repair of a covariance that is not positive definite is in C27",
    ),
    dict(
        id="C31",
        title="Empirical prior scales log-normal moments to the investment horizon",
        statement="Without the log-normal assumption the prior holds exactly the moments of its estimators; with it, the moments of the log returns are scaled by the horizon and converted into the expected value and covariance of linear returns over that horizon. The estimators see all rows of both data sets, in logs when log-normal, and keep the moments they estimated.",
        over=["inputs", "configurations"],
        text="all estimated moments, returns and horizons within the sizes",
        why="Tests fix one horizon and one dataset and compare stored numbers.",
        files=[EP],
        mech=[("horizon scaling", EP)],
        observe=["prior_model_ of EmpiricalPrior"],
        note="bounded; the exponential is an uninterpreted function",
    ),
    dict(
        id="C24",
        title="Clusters are cut from the tree where the dispersion levels off",
        statement="Without a requested number of clusters, the clustering cuts its tree into the number that maximises the second difference of the total average within-cluster distance, never more than the maximum number of clusters. The labels are the partition given by that cut of the tree built on the distances passed in. A distance matrix that is not square, not symmetric or without a zero diagonal is refused.",
        over=["inputs", "configurations"],
        text="all distances within the ranges around each fixed tree, over the listed linkages and numbers of clusters",
        why="The dispersion compares every partition of the tree; tests fix one distance matrix and one resulting number.",
        files=[CLU, STATS],
        mech=[("number of clusters", STATS), ("labels", CLU)],
        observe=["n_clusters_, labels_ and linkage_matrix_ of HierarchicalClustering"],
        note="bounded: the tree comes from the compiled linkage of the distances in the middle of each range, and the ranges are small enough to keep it",
    ),
    dict(
        id="C25",
        title="Distances are the documented functions of their codependence",
        statement="Each distance estimator gives a codependence and a distance that follow its documented formula from the returns, with the absolute value and power options applied. Both are symmetric, the distance of an asset to itself is zero, and they follow the assets when these are reordered.",
        over=["inputs", "configurations"],
        text="all returns within the sizes, over the estimators and their options",
        why="Rank correlations, binned information and distance correlations are piecewise functions of every pair of observations; tests compare a few stored numbers.",
        files=[DIS, STATS],
        mech=[("distances", DIS), ("bin widths", STATS)],
        observe=["codependence_ and distance_ of the distance estimators"],
        note="bounded: rank correlations and mutual information are decided ordering by ordering; logarithms are uninterpreted; the rounding of the distance correlation is covered by a concrete regression only",
    ),
    dict(
        id="C32",
        title="Returns are computed from consecutive prices of the rows that are kept",
        statement="Every linear or logarithmic return is computed from two consecutive kept prices of the same column, for assets and factors alike. Rows and columns are removed, joined and filled exactly as asked by the join method, the missing value threshold, the filling option and the inception option, and the inputs are left unchanged.",
        over=["inputs", "configurations"],
        text="all prices and missing value patterns within the sizes, over the joins and options",
        why="Missing values, dates and options multiply into many combinations; tests use one complete data set.",
        files=[RET],
        mech=[("cleaning and returns", RET)],
        observe=["result of prices_to_returns"],
        note="bounded: missing value patterns are enumerated path by path; the logarithm is uninterpreted",
    ),
    dict(
        id="C33",
        title="Pre-selection keeps exactly the assets its rule selects",
        statement="Dropping correlated assets leaves no pair above the threshold and drops an asset only because of such a pair; selecting the k extremes keeps the k best or worst by the measure; selecting non-dominated assets keeps whole fronts in order until the minimum number is reached; dropping flat, incomplete or expiring assets drops exactly those. The kept columns keep their order, their names and their values.",
        over=["inputs", "configurations"],
        text="all correlations, measures, returns and missing value patterns within the sizes, over the options",
        why="Which asset of each pair goes depends on every other correlation; tests fix a few matrices.",
        files=[PRE + "_drop_correlated.py", PRE + "_select_k_extremes.py", PRE + "_select_non_dominated.py", PRE + "_select_complete.py", PRE + "_select_non_expiring.py", PRE + "_drop_zero_variance.py"],
        mech=[("correlation rule", PRE + "_drop_correlated.py"), ("extremes", PRE + "_select_k_extremes.py"), ("fronts", PRE + "_select_non_dominated.py")],
        observe=["to_keep_ and the transformed data"],
        note="bounded: correlations are given directly in place of the library correlation; missing value patterns are enumerated path by path",
    ),
    dict(
        id="C34",
        title="Uncertainty sets and bootstrap samples follow their definitions",
        statement="The size of each set is the square root of the chi-squared quantile at the confidence level, with one degree of freedom per expected return or covariance entry, and its shape is the documented covariance of the estimates, restricted to variances when asked. The bootstrap sets use the sample covariance of the moments over the bootstrapped samples. Every bootstrapped observation is an observed row, blocks run circularly through consecutive rows, and the same seed gives the same samples.",
        over=["inputs", "configurations"],
        text="all covariances and returns within the sizes, over the seeds, block sizes and options",
        why="Scaling by the number of observations, stacking order and degrees of freedom are all hidden by a stored number.",
        files=[UE, UB, BOOT, STATS],
        mech=[("empirical sets", UE), ("bootstrap sets", UB), ("circular blocks", BOOT)],
        observe=["uncertainty_set_ and the result of stationary_bootstrap"],
        note="bounded: random draws are those of fixed seeds; the chi-squared quantile is the numerical library's",
    ),
    dict(
        id="C35",
        title="Copula distribution, density and conditional functions agree",
        statement="For every bivariate copula, the conditional distributions are the partial derivatives of the joint distribution, the density is its mixed derivative, and the inverse conditional distribution undoes the conditional one. A rotated copula equals the unrotated one with the matching margins reflected, and the reported tail dependence and the parameter implied by Kendall's tau are those of that distribution.",
        over=["inputs", "configurations"],
        text="all pairs in the unit square, over the families, the rotations and the listed parameters",
        why="The identities tie five methods and four rotations together at every point of the square; tests compare stored numbers at a few points.",
        files=[COP + "_clayton.py", COP + "_gumbel.py", COP + "_joe.py", COP + "_gaussian.py", COP + "_student_t.py", COP + "_independent.py", COP + "_utils.py", COP + "_base.py"],
        mech=[("families", COP + "_clayton.py"), ("rotations", COP + "_utils.py")],
        observe=["cdf, partial_derivative, inverse_partial_derivative, score_samples, lower_tail_dependence, upper_tail_dependence, fit"],
        note="bounded: parameters for which the powers are algebraic; normal and Student distribution functions are uninterpreted inverse pairs; the iterative inverses of Gumbel and Joe only at sample points",
    ),
    dict(
        id="C39",
        title="A fit depends only on the parameters and the data",
        statement="Fitting an object again gives what a new object with the same parameters gives on the same data, whether its earlier fits succeeded, failed or used other parameters and data. Fitting changes neither the data nor the parameters that were passed in.",
        over=["inputs", "histories", "configurations"],
        text="all second data sets or weights within the sizes, over the estimators and the listed outcomes of the earlier fit",
        why="State left over from an earlier, especially a failed, fit shows only in particular sequences of calls; tests fit fresh objects.",
        files=[CVX, MR, RBF, DRF, MU + "_shrunk_mu.py", COV + "_base.py", BL, FM, "src/skfolio/optimization/naive/_naive.py", DIS],
        mech=[("problems are rebuilt for every fit", CVX)],
        observe=["weights_, problem_values_, mu_, covariance_, prior_model_, distance_ after a second fit; get_params(); the arrays passed in"],
        note="bounded: one earlier fit; convex problems are compared with the documented one for every weight vector on fixed scenarios",
    ),
    dict(
        id="C30",
        title="Uncertainty sets in mean-risk optimization give the worst case of the set",
        statement="With an uncertainty set of expected returns, the return in every objective, floor and ratio is the lowest one over the ellipsoid: no member promises less. With an uncertainty set of the covariance matrix, the variance in objectives and limits is the highest one over the covariance matrices of the set. The reported risk and return are those worst cases for the reported weights.",
        over=["inputs", "configurations"],
        text="all weights, sizes and shapes of the set within the bounds, over objectives and limits",
        why="The worst case is an extremum over a continuum of models and enters through a norm or a semidefinite program; tests compare stored weights for one data set.",
        files=[CVX, MR, "src/skfolio/uncertainty_set/_base.py"],
        mech=[("worst-case return and worst-case variance expressions", CVX), ("objectives and limits", MR)],
        observe=["weights_, problem_values_, feasibility of MeanRisk with mu_uncertainty_set_estimator and covariance_uncertainty_set_estimator"],
        note="bounded: two assets; the worst-case variance for every weight of one asset and at listed weights and shapes of two assets; exact rational matrix roots stand in for the library's",
    ),
    dict(
        id="C36",
        title="Distribution and copula selection picks the best candidate",
        statement="The criteria are minus twice the log-likelihood plus two, or the logarithm of the number of observations, times the number of parameters, and selection returns a fitted copy of a candidate with the lowest one. A pair whose independence is not rejected at the given level gets the independent copula, and a copula fitted by likelihood gets the rotation and parameter of the largest one found. Tail concentrations are the conditional frequencies or probabilities of the joint tail at each quantile, and pseudo-observations are scaled ranks.",
        over=["inputs", "configurations", "fault_sequences"],
        text="all likelihoods, p-values, levels, quantiles and pseudo-observations within the sizes, over candidates, numbers of parameters and failed searches",
        why="Which candidate wins depends on the order of several real numbers and on failures of a numerical search; tests select once on real data.",
        files=[DBASE, COP + "_selection.py", COP + "_utils.py", COP + "_base.py", UNIV + "_selection.py", UNIV + "_base.py"],
        mech=[("information criteria", DBASE), ("selection", COP + "_selection.py"), ("likelihood over rotations", COP + "_utils.py")],
        observe=["score, aic, bic, select_bivariate_copula, select_univariate_dist, fit with itau=False, tail_concentration, empirical_tail_concentration, compute_pseudo_observations"],
        note="bounded: up to three candidates and four observations; likelihoods, p-values and searches are arbitrary results of stand-ins",
    ),
    dict(
        id="C37",
        title="Predictions and scores follow from the fitted weights",
        statement="Predicting gives the portfolio of the fitted weights on the new data, one portfolio per row when there are several, with the costs, fees, previous weights and risk-free rate of the optimizer unless portfolio parameters replace them. The score is the Sharpe ratio of that portfolio or the mean over the portfolios, and a measure scorer returns the measure with the sign that makes larger better. The naive optimizers give equal weights and weights proportional to inverse volatilities.",
        over=["inputs", "configurations"],
        text="all weights, returns, costs and fees within the sizes, over the optimizers, measures and given or missing portfolio parameters",
        why="Every optimizer shares this step, and errors show only for particular combinations of optimizer and portfolio parameters; tests predict with defaults.",
        files=[OBASE, SCORER, NAIVE, "src/skfolio/measures/_enums.py"],
        mech=[("prediction and score", OBASE), ("scorers", SCORER), ("naive weights", NAIVE)],
        observe=["predict, score, fit_predict, make_scorer, cross_val_score; weights_ of EqualWeighted and InverseVolatility"],
        note="bounded: two assets and three observations, up to three portfolios per prediction",
    ),
    dict(
        id="C11",
        title="Parameters given by asset name equal those given in asset order",
        statement="A dictionary by asset name for weights, previous weights, costs, fees, bounds or groups has the effect of the vector with each value at the column of that asset and the documented default for assets left out. Neither the order of the dictionary nor the order of the columns of the data changes what an asset receives. Names without named data are refused.",
        over=["inputs", "configurations"],
        text="all values of the named parameters, weights and returns within the sizes, over the column orders and the assets left out",
        why="A value placed at the wrong asset shows only for unsorted columns or incomplete dictionaries; tests use one sorted data set.",
        files=[TOOLSF, P, CVX, HIER, BL, NAIVE],
        mech=[("conversion of named values", TOOLSF)],
        observe=["returns and weights of Portfolio; feasible set and objective of MeanRisk; weights_ of HierarchicalRiskParity and InverseVolatility; prior_model_ of BlackLitterman; exceptions"],
        note="bounded: three assets; risk budgets by name are in C15",
    ),
    dict(
        id="C38",
        title="Vine copula densities and samples follow the fitted pairs and margins",
        statement="The log-density of a vine copula is the sum of the margins' log-densities and of each pair copula's log-density at the conditional probabilities of its two assets given its conditioning assets. A sample is the inverse of these conditional probabilities at the uniforms drawn, whatever the pair copulas; conditions on central assets hold exactly, and the other assets then follow their conditional distribution. A prior built from a simulated distribution is the empirical prior of the samples drawn with the arguments given.",
        over=["inputs", "configurations", "histories"],
        text="all draws, evaluated observations and conditions within the bounds, over vine shapes, depths, margins, log returns and kinds of conditions, repeated on the same object",
        why="Tests pin samples of one data set by seed, whose right-hand pairs are symmetric in their two assets, so a pair inverted in the wrong direction looks right.",
        files=[VINE, VINEU, SYN],
        mech=[("sampling order and propagation of draws through the trees", VINE), ("conditional probabilities cached in the nodes", VINEU), ("simulated prior", SYN)],
        observe=["score_samples and sample of VineCopula; prior_model_ of SyntheticData; what the pair copulas and margins are fitted to"],
        note="bounded: up to five assets on fixed structures, stand-in pair copulas with affine conditional distributions that differ in both directions",
    ),
]
