"""Single source for properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
PROPS = []


def P(id, title, statement, text, why, files, mech, over=("inputs",), technique="", observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, technique=technique, observe=list(observe)))


D = "diff_diff/"
P("P01", "Regression engine returns the least-squares solution and textbook covariance",
  "For every finite design matrix and outcome, the regression returns coefficients whose fitted values are the orthogonal projection of the outcome on the columns, residuals equal to outcome minus fitted, and NaN for exactly those columns that are linear combinations of the columns before them, whatever the scale of each column; the remaining ones equal those of the regression without the dropped columns; a dropped column is named in a warning, dropped silently or refused, as asked. "
  "The covariance is exactly the one requested: classical, HC1 heteroskedasticity-robust, or cluster-robust with the G/(G-1)*(n-1)/(n-k) correction, whatever the type, order or magnitude of the cluster labels. "
  "t statistics, p-values and confidence intervals follow from coefficient, standard error, degrees of freedom (less any absorbed parameters) and the configured alpha.",
  "all full-rank, collinear, badly scaled, saturated and malformed designs; all cluster partitions and label types; both normal and t inference",
  "the tests use a few Gaussian designs of fixed shape; ranks, scales, cluster labels and adjustments form an unbounded space",
  [D + "linalg.py", D + "utils.py"], [("OLS solver, rank detection, covariance", "diff_diff/linalg.py:solve_ols, _detect_rank_deficiency, compute_robust_vcov"), ("wrapper and inference", "diff_diff/linalg.py:LinearRegression")],
  technique="property-based testing: differential against an independent projection/explicit-sum reference, metamorphic relations")
P("P02", "Basic difference-in-differences equals its interacted regression",
  "For every data set with both groups and both periods, the reported effect is the coefficient on treatment times post in the least-squares regression of the outcome on an intercept, treatment, post, their product, the covariates and the requested fixed effects; without covariates it is the double difference of the four cell means. "
  "Requesting fixed effects as dummies or as absorbed effects gives the same effect, residual fit and degrees of freedom. "
  "Standard error, t, p, confidence interval, coefficients, R-squared, residuals, fitted values and observation counts are those of that regression with the requested (robust, classical or clustered) covariance, and are NaN where a saturated fit leaves no degrees of freedom. With an empty treatment-by-period cell no effect is reported.",
  "all cell sizes, covariates, fixed-effect structures, covariance choices, dtypes, row indexes and call styles (columns or formula)",
  "tests check a handful of simulated data sets and mostly ranges of values",
  [D + "estimators.py", D + "linalg.py", D + "utils.py"], [("fit", "diff_diff/estimators.py:DifferenceInDifferences.fit"), ("formula parsing", "diff_diff/estimators.py:_parse_formula")],
  technique="property-based testing: differential against a reference regression")
P("P03", "Multi-period DiD: every period effect, average and inference is the regression's",
  "For every panel or repeated cross section with at least one pre and one post period, each reported period effect is the treatment-by-period coefficient of the least-squares regression on treatment, period dummies relative to the reference period, treatment-by-post-period interactions, covariates and fixed effects. "
  "The average effect is the mean of the period effects with its standard error from their joint covariance. "
  "Period labels (any type and order), the choice of post periods and of reference period only label results, and an effect that the data do not identify is reported as NaN rather than as a number.",
  "all numbers and labels of periods, subsets of post periods, references, unbalanced cells, covariates, dummy/absorbed fixed effects, covariance choices",
  "tests use one simulated design with integer periods and default post periods",
  [D + "estimators.py"], [("fit", "diff_diff/estimators.py:MultiPeriodDiD.fit")], technique="property-based testing: differential against a reference regression")
P("P04", "Two-way fixed effects and within transformation equal the dummy regression",
  "On every panel with a 0/1 post indicator, balanced or not and with any number of rows per cell, the two-way fixed-effects estimate equals the treatment-times-post coefficient of the regression with a full set of unit and time dummies and the covariates, with standard errors clustered by unit unless another cluster is named. "
  "The within transformation equals the residual from regressing each variable on unit and time dummies, and one-way demeaning equals the deviation from group means; neither changes its input unless asked to. "
  "When the fixed effects absorb the treatment, no estimate is reported as if it were identified.",
  "balanced and unbalanced panels, repeated cells, covariates that may be absorbed, cluster choices",
  "tests use balanced panels, where the shortcut formula is exact",
  [D + "twfe.py", D + "utils.py"], [("fit", "diff_diff/twfe.py:TwoWayFixedEffects.fit"), ("within transformation", "diff_diff/utils.py:within_transform, demean_by_group")], technique="property-based testing: differential against dummy regressions")
P("P05", "Wild cluster bootstrap draws from the null-imposed reweighted distribution",
  "Every bootstrap coefficient is the estimate on data rebuilt from the null-restricted fit plus restricted residuals multiplied by one weight per cluster from the requested Rademacher, Webb or Mammen distribution. "
  "The reported p-value is the share of bootstrap t statistics at least as extreme as the original cluster-robust t (never below 1/(B+1)), the standard error is the standard deviation of the bootstrap coefficients and the interval their percentiles at the configured alpha. "
  "Estimators asked for wild-bootstrap inference report exactly this for their own design while keeping their point estimate, the same seed reproduces it, and a later fit without it shows none of it.",
  "all small cluster partitions, weight types, null values, seeds, and DiD/TWFE designs",
  "tests check only that p-values lie in [0,1] and seeds reproduce",
  [D + "utils.py", D + "estimators.py", D + "twfe.py"], [("bootstrap", "diff_diff/utils.py:wild_bootstrap_se"), ("estimator use", "diff_diff/estimators.py:_run_wild_bootstrap_inference")], over=("inputs", "configurations"),
  technique="property-based testing: draws matched against exhaustive enumeration of weight vectors; frequency test vs exact distribution")
P("P06", "Staggered DiD: every group-time effect is the stated 2x2 comparison",
  "For every staggered panel, the set of reported group-time effects is exactly the set of cohort-period pairs with treated and control observations in both the base and the target period, and each equals the difference of mean outcome changes between the cohort and the chosen control group (never-treated units, or also the units of cohorts first treated after the target period), adjusted for covariates by the chosen regression, weighting or doubly robust method (unadjusted, with a warning, in cells whose covariates are incomplete). "
  "The base period is the last period before treatment (or before anticipated treatment), or the preceding period for pre-treatment periods under the varying base; never-treated units may be coded 0 or infinity. "
  "With no noise and parallel trends each post-treatment effect is the true effect and each pre-treatment effect is zero.",
  "all cohort structures, gaps, unbalanced rows, labels, base periods, anticipation windows, control groups, covariates incl. collinear ones, three estimation methods",
  "tests use one simulated generator and check signs and rough magnitudes",
  [D + "staggered.py"], [("group-time effects", "diff_diff/staggered.py:CallawaySantAnna._compute_att_gt_fast and estimation methods"), ("fit", "diff_diff/staggered.py:CallawaySantAnna.fit")], over=("inputs", "configurations"),
  technique="property-based testing: differential against a loop-based reference model; noise-free recovery")
P("P07", "Staggered DiD: aggregation and standard errors follow from unit influence",
  "The overall, event-time and cohort effects are the averages of the group-time effects weighted by cohort size (cohort effects: simple averages over post-treatment periods), restricted to cohorts observed over the requested balanced window. "
  "Every standard error is the root of the sum of squared unit influence contributions, including the contribution of estimated cohort weights for the overall effect, and t, p and intervals follow from the normal distribution at the configured alpha. "
  "Choosing which tables to compute never changes any number in them.",
  "all staggered panels, methods and aggregation options",
  "tests compare against stored values for a few data sets",
  [D + "staggered_aggregation.py", D + "staggered.py"], [("aggregation", "diff_diff/staggered_aggregation.py:CallawaySantAnnaAggregationMixin")], technique="property-based testing: differential against explicit influence sums")
P("P08", "Staggered DiD: multiplier bootstrap perturbs unit influence as stated",
  "Every bootstrap draw of the overall effect equals the estimate plus the sum over units of one random weight per unit times that unit's influence, with weights from the requested Rademacher, Webb or Mammen distribution, the same weights being used for every parameter in a draw. "
  "Standard errors, percentile intervals and p-values of all parameters follow from the draws. "
  "The same seed gives the same draws and a different seed different ones; a weight type set after construction is honoured.",
  "all small panels, methods, weight types, seeds", "tests check positivity and seed reproducibility only",
  [D + "staggered_bootstrap.py", D + "staggered.py"], [("bootstrap", "diff_diff/staggered_bootstrap.py:CallawaySantAnnaBootstrapMixin")], over=("inputs", "configurations"),
  technique="property-based testing: draws matched against enumerated weight vectors; moment test")
P("P09", "Interaction-weighted event study equals its saturated regression",
  "Cohort-by-event-time effects are the interaction coefficients of the regression with unit and time fixed effects and covariates, never-treated (or not-yet-treated) units as controls and the period before (anticipated) treatment as reference. "
  "Event-time effects weight cohorts by their share of treated observations at that event time, the overall effect weights post-treatment event times likewise, and standard errors are the delta-method ones from the cluster-robust covariance of the regression. "
  "On balanced panels without covariates cohort effects equal the staggered estimator's never-treated universal-base effects; bootstrap draws are the estimator on resampled whole units, and inference that is undefined is reported as NaN.",
  "all staggered panels with controls, unbalanced rows, covariates, anticipation, cluster choices; all small-panel resamples",
  "tests use one generator and check ranges", [D + "sun_abraham.py"], [("regression", "diff_diff/sun_abraham.py:SunAbraham._fit_saturated_regression"), ("weights", "diff_diff/sun_abraham.py:_compute_iw_effects, _compute_overall_att"), ("bootstrap", "diff_diff/sun_abraham.py:_run_bootstrap")], over=("inputs", "configurations"),
  technique="property-based testing: differential against dummy regressions; enumeration of resamples")
P("P10", "Synthetic DiD weights solve their quadratic programme",
  "Unit weights are non-negative, sum to one and minimise the stated ridge-penalised pre-treatment imbalance; time weights are the stated similarity weights, non-negative and summing to one; the effect is the weighted double difference of treated mean and weighted controls, post minus time-weighted pre. "
  "With covariates the same runs on outcomes residualised by covariates, unit and period effects. "
  "A treated path that is a convex combination of controls plus a constant post effect is recovered exactly, and a panel missing unit-periods is rejected.",
  "all balanced panels with at least one control and treated unit, any labels, regularisation, covariates", "tests use one factor-model generator with tolerance bands",
  [D + "synthetic_did.py", D + "utils.py"], [("fit", "diff_diff/synthetic_did.py:SyntheticDiD.fit"), ("weights", "diff_diff/utils.py:compute_synthetic_weights, compute_time_weights, compute_sdid_estimator")],
  technique="property-based testing: optimality certificate (duality gap), differential and exact recovery")
P("P11", "Synthetic DiD placebo and bootstrap inference sample the stated distributions",
  "Every placebo draw is the estimator applied to some choice of as many control units as there are treated ones, treated as pseudo-treated, with the remaining controls' weights renormalised; every bootstrap draw is the estimator on a resample of whole units containing both groups; how the units are called plays no part. "
  "Standard error, interval and p-value (a test of no effect) follow from the draws at the configured alpha. "
  "Where inference is undefined (too few controls for placebo) it is reported as NaN and never as significant or insignificant.",
  "all small panels, unit labels of any kind, both variance methods, seeds, number of draws", "tests check positivity only",
  [D + "synthetic_did.py"], [("inference", "diff_diff/synthetic_did.py:SyntheticDiD._placebo_variance_se, _bootstrap_se")], over=("inputs", "configurations"),
  technique="property-based testing: draws matched against enumerated assignments/resamples")
P("P12", "Triple differences: all three methods are the stated estimators",
  "For every data set with all eight cells filled, without covariates each of the regression, weighting and doubly robust methods returns the difference of the two difference-in-differences of cell means; with covariates each returns its stated adjusted estimator with propensity scores trimmed as configured. "
  "The doubly robust estimate is exact when outcomes are linear in the covariates, whatever the selection, and standard errors do not depend on the outcome's level and respect the requested clustering. "
  "Empty cells, non-binary indicators, missing values or unknown columns raise an error.",
  "all cell sizes, covariates (scaled, shifted, collinear), trimming values, clusters, methods", "tests use one generator and bands around the truth",
  [D + "triple_diff.py"], [("fit and methods", "diff_diff/triple_diff.py:TripleDifference")], over=("inputs", "configurations"), technique="property-based testing: differential against independently written estimators")
P("P13", "Triply robust panel estimate is the stated weighted low-rank regression",
  "Each treated cell's effect is its outcome minus the fit at that cell of the weighted two-way plus nuclear-norm-penalised regression on untreated cells (or, for the joint method, the effect is the treatment coefficient of that regression), with exponential unit-distance and time-distance weights, and the reported effect is their mean. "
  "Selected tuning parameters lie on the grids and no single-parameter change (joint: no other grid point) has a lower leave-one-out error; the reported score is that error. "
  "Non-absorbing treatment, too few untreated periods, no controls or no treated units are rejected.",
  "staggered and simultaneous adoption, missing rows, labels, tuning grids incl. infinite values", "tests check bands around truth on one generator",
  [D + "trop.py", "rust/src/trop.rs"], [("model fit", "diff_diff/trop.py:TROP._estimate_model, _weighted_nuclear_norm_solve"), ("weights", "diff_diff/trop.py:_compute_observation_weights"), ("tuning", "diff_diff/trop.py:fit, _fit_joint")], over=("inputs", "configurations"),
  technique="property-based testing: differential against an independent convex solver")
P("P14", "Triply robust panel inference resamples units as stated",
  "Every bootstrap draw is the estimate on a resample of as many control and as many treated units, drawn with replacement within each group, at the selected tuning parameters; the standard error is the standard deviation of the draws. "
  "The jackknife leaves out each treated unit in turn and scales the spread by (n-1)/n, undefined with one treated unit. "
  "t, p and interval share one reference distribution and the configured alpha.",
  "all small panels, both methods, seeds", "tests check positivity only", [D + "trop.py"], [("bootstrap/jackknife", "diff_diff/trop.py:_bootstrap_variance, _jackknife_variance, _bootstrap_variance_joint")], over=("inputs", "configurations"),
  technique="property-based testing: draws matched against enumerated resamples; moment test")
P("P15", "Goodman-Bacon decomposition lists every 2x2 comparison and adds up",
  "On every balanced panel the decomposition lists exactly the 2x2 comparisons whose cells have observations (an unbalanced panel is announced by a warning and gives the comparisons its cells allow): (treated against never-treated, earlier against later before the later is treated, later against earlier already treated), each with its double-difference estimate over its own window, units counts and label. "
  "Weights are non-negative and sum to one; totals and averages by type equal those of the listed comparisons. "
  "With exact weights the weighted sum equals the two-way fixed-effects coefficient on the treatment indicator.",
  "all balanced staggered panels, with or without never-treated and always-treated units", "tests use one generator and bands",
  [D + "bacon.py"], [("decomposition", "diff_diff/bacon.py:BaconDecomposition")], technique="property-based testing: differential and an exact additive identity")
P("P16", "Honest DiD bounds, robust intervals and breakdown values follow their definition",
  "For every event study and weighting of post-period effects, the relative-magnitude identified set is the weighted estimate plus or minus M times the largest absolute pre-period violation, the robust interval adds the normal critical value times the standard error computed from the covariance of the effects, and the combined restriction is the intersection of the single restrictions. "
  "Bounds never shrink when M grows, and each point of a sensitivity grid equals a separate fit at that M. "
  "The breakdown value is the smallest M at which the robust interval reaches zero, whatever the grid's order or start, and is absent exactly when it lies beyond the grid.",
  "multi-period and staggered event studies, any weights, M, grid and alpha", "tests check a few M values on one data set",
  [D + "honest_did.py"], [("bounds", "diff_diff/honest_did.py:HonestDiD._compute_rm_bounds, _compute_smoothness_bounds, _compute_combined_bounds"), ("breakdown", "diff_diff/honest_did.py:breakdown_value, _find_breakdown")], technique="property-based testing: closed-form oracle and metamorphic nesting")

P("P17", "Pre-trends power and MDV follow the joint normal test they describe",
  "For every event study with estimated pre-period effects, the power at a violation of the chosen pattern and size is the probability that the joint chi-square test of the pre-period effects rejects, computed from their covariance. "
  "The minimum detectable violation is the size at which that power equals the target (zero when the target does not exceed alpha). "
  "Power curves, convenience functions and both result objects agree with it at every magnitude.",
  "event studies of three estimators, four violation patterns, any alpha and target", "tests check signs and ranges on one data set",
  [D + "pretrends.py"], [("power", "diff_diff/pretrends.py:PreTrendsPower._compute_power"), ("MDV", "diff_diff/pretrends.py:PreTrendsPower._compute_mdv")], technique="property-based testing: differential against the noncentral chi-square")
P("P18", "Power, detectable effect and sample size are consistent with each other",
  "For every design the analytic power is the normal rejection probability at the stated variance of the DiD estimator (panel or repeated cross sections, any group split, periods and intra-cluster correlation). "
  "The minimum detectable effect is the effect with the target power, and the required sample size is the smallest whole number reaching the target at the requested split. "
  "Power curves equal pointwise power and every quantity moves in the right direction with each input.",
  "all designs within bounds, one- and two-sided", "tests check a handful of designs for monotonicity",
  [D + "power.py"], [("variance and power", "diff_diff/power.py:PowerAnalysis.power, mde, sample_size"), ("curves", "diff_diff/power.py:PowerAnalysis.power_curve, sample_size_curve")], technique="property-based testing: closed-form oracle, inverse relations, monotonicity")
P("P19", "Simulated power reports exactly what its simulated data sets show",
  "Every number reported by simulate_power (power, its interval, mean, bias, RMSE, coverage, standard errors, per-effect results, the simulated p-values) equals the one recomputed by fitting the same estimator to the very data sets that were generated. "
  "Failed fits are counted and left out, and too many failures raise an error. "
  "The same seed reproduces all numbers.",
  "estimators, generators, effect grids, failing fits and seeds", "tests run one estimator with few simulations",
  [D + "power.py"], [("simulation", "diff_diff/power.py:simulate_power")], over=("inputs", "configurations", "seeds"), technique="property-based testing: recording generator, full recount as oracle")
P("P20", "Parallel-trends and equivalence tests compute the tests they name",
  "For every panel the simple check compares the two groups' least-squares pre-trends with their standard errors, the robust check compares the distributions of period-to-period changes (Wasserstein, Kolmogorov-Smirnov, permutation p-value), and the equivalence test runs two one-sided Welch tests of the changes. "
  "Verdicts follow from the reported numbers and the stated thresholds. "
  "Undefined pieces give no verdict rather than a wrong one.",
  "all panels with holes, any labels, group coding and pre-period choice", "tests check verdicts on two obvious data sets",
  [D + "utils.py"], [("tests", "diff_diff/utils.py:check_parallel_trends, check_parallel_trends_robust, equivalence_test_trends")], technique="property-based testing: differential; exhaustive permutation enumeration")
P("P21", "Placebo tests re-estimate exactly the placebo design they describe",
  "The fake-timing test uses only pre-treatment rows, the fake-group test only never-treated units, the permutation test reassigns as many units as were treated, and the leave-one-out test drops each treated unit once. "
  "Estimates, standard errors, p-values, intervals at the requested alpha and verdicts equal those recomputed from these designs. "
  "The full suite returns the same results as the separate tests.",
  "all panels, fake designs, seeds", "tests check that results exist",
  [D + "diagnostics.py"], [("placebo tests", "diff_diff/diagnostics.py:run_placebo_test, placebo_timing_test, placebo_group_test, permutation_test, leave_one_out_test")], over=("inputs", "configurations", "seeds"), technique="property-based testing: recomputed designs; enumerated reassignments; moment test")
P("P22", "Data preparation keeps every value in its place",
  "Indicators, reshaping, balancing and event time put each value exactly where the specification says: no row is lost, duplicated or filled from another unit, and the input frame is left alone. "
  "Validation accepts a frame exactly when it meets the stated requirements, and summaries equal the statistics of the rows they describe. "
  "Control ranking scores, weights, orders and cuts units as documented, whatever the row order.",
  "all frames: labels, types, holes, missing values, flaws, row orders", "tests use a few small literal frames",
  [D + "prep.py"], [("helpers", "diff_diff/prep.py:wide_to_long, balance_panel, validate_did_data, summarize_did_data, create_event_time"), ("ranking", "diff_diff/prep.py:rank_control_units")], technique="property-based testing: reference models, KKT certificate for the weights")

P("P23", "Data generators produce exactly the model they document",
  "For every parameter setting each generator returns the complete grid of units and periods (or cells) with group sizes, cohorts, indicators and true effects as requested, and outcomes equal to the documented mean plus unit effects, factors, covariates and noise of the stated form. "
  "Switching a component off, scaling it or moving the effect changes the outcome exactly as documented under the same seed. "
  "Equal seeds give equal data and the global random state is never touched.",
  "all parameter settings of six generators, seeds", "tests check shapes and one effect",
  [D + "prep_dgp.py"], [("generators", "diff_diff/prep_dgp.py:generate_did_data, generate_staggered_data, generate_factor_data, generate_ddd_data, generate_panel_data, generate_event_study_data")], over=("inputs", "configurations", "seeds"), technique="property-based testing: exact metamorphic relations under a fixed seed; moment tests")

P("P24", "Every reported effect carries one coherent inference",
  "In every estimator, for every effect a result reports (overall, per period, event time, cohort, group-time cell), the t statistic is effect over standard error, p-value and interval come from one reference distribution at the configured alpha (simulated ones from their draws), and an analytic interval is centred on the effect and excludes zero exactly when p is below alpha. "
  "Where the standard error is undefined so are t, p and interval, and a zero standard error never yields a finite t or a proper interval. "
  "Changing alpha changes the interval only, nested and by the quantiles of that same distribution, never effect, standard error, t or p.",
  "all estimators and options, healthy and degenerate data, all alphas", "tests look at one estimator and alpha at a time and seldom at degenerate data",
  [D + "estimators.py", D + "twfe.py", D + "staggered.py", D + "sun_abraham.py", D + "triple_diff.py", D + "synthetic_did.py", D + "trop.py", D + "linalg.py", D + "utils.py"],
  [("inference", "diff_diff/utils.py:compute_p_value, compute_confidence_interval; diff_diff/linalg.py:LinearRegression.get_inference")], over=("inputs", "configurations"), technique="property-based testing: invariants over all estimators; differential fits across alpha")
P("P25", "A fit is a function of data, parameters and seed and disturbs nothing else",
  "Fitting, refitting, summarising, predicting, testing, simulating or plotting never changes the caller's frames (values, dtypes, index, columns), arrays, lists or earlier result objects, and neither uses nor reseeds the global random states. "
  "After any history of fits, failed fits and parameter changes an estimator returns exactly what a fresh one with the same parameters returns; equal seeds give equal numbers. "
  "get_params returns the configuration, set_params applied to a default estimator reproduces it, and unknown parameter names are rejected.",
  "histories of operations on every estimator; every estimator and analysis function", "hidden state and mutation only show in sequences of operations",
  [D + "estimators.py", D + "twfe.py", D + "staggered.py", D + "sun_abraham.py", D + "triple_diff.py", D + "synthetic_did.py", D + "trop.py", D + "bacon.py", D + "honest_did.py", D + "pretrends.py", D + "power.py", D + "diagnostics.py", D + "utils.py", D + "prep.py", D + "visualization.py"],
  [("fit/get_params/set_params", "every estimator class"), ("functions", "diagnostics, utils, prep, power, honest_did, pretrends, visualization")], over=("histories", "inputs", "seeds"), technique="property-based testing: stateful operation sequences against fresh estimators; snapshots of arguments and random state")
P("P26", "Estimates do not depend on presentation, labels, units or nuisance levels",
  "In every estimator all reported numbers survive reordering rows and columns, reindexing and unrelated columns; effects and analytic inference survive renaming units, shifting the calendar and rescaling covariates; measuring the outcome as a*y+b multiplies effects by a and standard errors by |a| (regression-type estimators), and constants that the design's fixed effects absorb change nothing. "
  "Adding tau to the treated observations moves each post-treatment effect by exactly tau and leaves pre-treatment effects and analytic standard errors alone; exchanging treated and control, or before and after, flips the sign only; copying every unit leaves effects and decomposition weights unchanged.",
  "all estimators and options, identified designs", "metamorphic relations quantify over all data sets",
  [D + "estimators.py", D + "twfe.py", D + "staggered.py", D + "sun_abraham.py", D + "triple_diff.py", D + "synthetic_did.py", D + "trop.py", D + "bacon.py", D + "utils.py"],
  [("data handling", "fit of every estimator")], over=("inputs", "configurations"), technique="property-based testing: metamorphic relations over all estimators")

P("P27", "What results print and export is exactly what they hold",
  "For every result class and any contents, summary() shows each estimate, standard error, t, p, significance code, interval and its confidence level, counts and settings as stored (within rounding), and print_summary prints that text. "
  "to_dict, to_dataframe at every level and the weight and effect tables hold exactly the stored numbers, one row per item in the documented order, and repr, stars, is_significant and the stated conclusions follow from the stored p-value or interval at the stored alpha (0.05 for single period and group-time effects). "
  "A table that was not computed and an unknown level or period are refused.",
  "all result classes, fitted and with arbitrary contents incl. NaN, infinities and any alpha", "tests look for a few substrings at alpha 0.05",
  [D + "results.py", D + "staggered_results.py", D + "sun_abraham.py", D + "triple_diff.py", D + "trop.py", D + "bacon.py", D + "diagnostics.py", D + "honest_did.py", D + "power.py", D + "pretrends.py", D + "utils.py", D + "linalg.py"],
  [("summaries and exports", "summary, to_dict, to_dataframe, __repr__, significance_stars, is_significant of every result class")], over=("inputs", "configurations"), technique="property-based testing: printed and exported values parsed back and compared with the stored fields (round trip)")

P("P28", "Plots show the numbers, intervals and references they are given",
  "Every plotting function draws exactly the estimates, intervals (at the level asked for), bounds, weights and powers of the results, table or dictionaries it is given, each at its own position and under its own label, with reference, shading, breakdown, target and MDE/MDV marks where they belong and only when switched on, and shows the titles, axis labels and sizes asked for. An explicit reference period normalises an event study, an inferred one only marks it; undefined estimates and intervals are left out rather than drawn. Input that cannot be plotted is refused, and given axes are used and returned.",
  "Result objects of all plottable kinds with arbitrary contents (NaN, infinite and zero SEs, any alpha), fitted results, tables and dictionaries in any order with integer, float, string and gapped labels, period/group selections, unsorted grids, arrays and lists; artists are read back from the matplotlib axes in data coordinates.",
  "the existing tests mostly assert that some Axes came back, on one clean result each",
  [D+"visualization.py", D+"honest_did.py", D+"pretrends.py"], [("event-study normalisation and extraction", D+"visualization.py:plot_event_study"), ("honest intervals", D+"visualization.py:plot_honest_event_study"), ("power-curve markers", D+"visualization.py:plot_power_curve")],
  over=("inputs", "configurations"), technique="property-based testing: generated results and tables, artists read back from the axes and compared with the numbers given")

P("P29", "Dataset loaders: right table, honest cache, graceful faults",
  "A loader returns the newest complete copy it can get: the cached one unless a download is forced, otherwise the download, and when the transfer fails at any point the cached copy or else the documented built-in table; a write that is cut short never leaves a truncated table behind, and clearing the cache removes the cached tables and nothing else. Derived columns (treated, first_treat with 0 for never, cohort, state, change) agree with the source rows, which are kept in order. Loading leaves the caller's random state alone.",
  "Random histories of loads (by name or loader, cached or forced), transfers that fail to start or break off, full disks while the cache is written, clearing, unrelated files; generated upstream tables in every layout the loaders know, small and large files, non-ASCII text, shuffled rows; any order of loads and any global random state. The network is a stand-in and the cache lives in a scratch directory.",
  "the tests call the fallback constructors once and never touch the cache or a failing transfer",
  [D+"datasets.py"], [("download with cache", D+"datasets.py:_download_with_cache"), ("derived columns", D+"datasets.py:load_castle_doctrine"), ("built-in tables", D+"datasets.py:_construct_mpdta_data")],
  over=("histories", "crash_points", "fault_sequences", "inputs"), technique="property-based testing: stateful histories with injected network and disk faults against a model of the cache")

P("P30", "Invalid input is refused, never silently turned into an estimate",
  "For every estimator, a request that breaks one of its stated requirements (a column that does not exist, something that is not a table, an empty table, a non-numeric, missing or infinite outcome or covariate where these are not allowed, an indicator other than 0 and 1, no treated or no control side, an empty cell, a duplicated or missing unit-period, missing identifiers, cluster labels or fixed effects, a treatment that varies or ends where it must not, a first-treatment date that is missing, negative or not constant within a unit, no or unknown post, reference or aggregation choice) raises an error; it never returns a result, changes the caller's table or leaves the estimator counting as fitted. A value outside the documented choices of an option is refused alike by the constructor and by set_params, which then leaves the estimator unchanged, while every documented value stays accepted. The regression layer, wild bootstrap, preparation, placebo, power, sensitivity and dataset functions refuse requests outside what they accept.",
  "34 estimator configurations x 36 ways to break a stated requirement, hit at 1-3 random rows, units or periods of generated panels; junk and random text for each documented option through either route; 32 utility requests. Not included, because the documentation allows or does not settle it: missing outcomes in CallawaySantAnna, TROP and BaconDecomposition, numeric options such as alpha outside (0,1) in the estimators.",
  "Tests check one example of some of these errors each; the rows affected, the estimator, the route (constructor or set_params) and combinations are open-ended, and a silently accepted error gives a plausible number.",
  [D+"estimators.py", D+"twfe.py", D+"staggered.py", D+"sun_abraham.py", D+"synthetic_did.py", D+"triple_diff.py", D+"trop.py", D+"bacon.py", D+"utils.py", D+"linalg.py", D+"prep.py", D+"pretrends.py", D+"honest_did.py"],
  [("validate_binary", D+"utils.py"), ("DifferenceInDifferences._validate_data", D+"estimators.py"), ("TripleDifference._validate_data", D+"triple_diff.py"), ("set_params", D+"*.py")],
  over=("inputs","configurations"), technique="property-based testing: fault injection into valid generated requests; oracle: an error is raised and nothing changes")

P("P31", "Dependent controls are dropped with a warning, dropped silently, or refused",
  "In every estimator that takes controls, fixed effects or absorbed effects, a control that adds no information (a copy, affine map or sum of other controls, a constant, or one that the unit, group or period effects already determine) changes neither the effects nor their standard errors. rank_deficient_action='warn' announces the drop, 'silent' gives the same numbers without a warning, 'error' refuses with ValueError; where nothing is dependent none of the three behaves differently from the others.",
  "DifferenceInDifferences (covariates, dummies, absorbed), TwoWayFixedEffects, MultiPeriodDiD (with and without absorbed effects), CallawaySantAnna, SunAbraham and TripleDifference (all three estimation methods) on generated panels x 8 kinds of dependence. Intervals of TripleDifference are compared through effect and SE only: its degrees of freedom are documented as approximate and count listed covariates.",
  "the tests use one or two exactly duplicated columns per estimator and mostly look only for the warning",
  [D+"linalg.py", D+"estimators.py", D+"twfe.py", D+"staggered.py", D+"sun_abraham.py", D+"triple_diff.py"],
  [("rank handling", D+"linalg.py:_detect_rank_deficiency, solve_ols"), ("rank_deficient_action", D+"*.py constructors")],
  over=("inputs","configurations"), technique="property-based testing: metamorphic relation (with and without a dependent control) and differential over the three actions")

P("P32", "Fallbacks and shaky grounds are announced, and only then",
  "When a result rests on something weaker than what was asked for, the user is told; on ordinary data nothing is said. TwoWayFixedEffects announces treatment that starts at different dates; the wild cluster bootstrap announces fewer than five clusters; MultiPeriodDiD announces that it reports analytical inference instead of a bootstrap; CallawaySantAnna announces each group-time effect that ignores covariates because base-period values are missing (that cell then equals the unconditional one and every other cell the conditional one); bootstraps announce too few draws; SyntheticDiD announces that placebo or bootstrap replications were too few and then reports no inference; leave-one-out and permutation tests announce the units or the number of permutations that could not be estimated and use the rest; a regression without degrees of freedom announces the normal approximation; the deprecated name of a parameter is announced and acts like the current one.",
  "TwoWayFixedEffects, DifferenceInDifferences, MultiPeriodDiD, CallawaySantAnna, SunAbraham, SyntheticDiD, TROP, diagnostics and LinearRegression on generated panels around each threshold (2-8 clusters, 5-60 draws, 1-5 treated against 1-8 controls, 0-3 missing rows); each announcement is predicted from the generated data, in both directions. Messages are recognised by a keyword, never by their full text.",
  "the tests look for each warning on one fixed example and almost never check its absence, the numbers that follow the fallback, or the boundary of its condition",
  [D+"twfe.py", D+"utils.py", D+"estimators.py", D+"staggered.py", D+"staggered_bootstrap.py", D+"sun_abraham.py", D+"synthetic_did.py", D+"trop.py", D+"diagnostics.py", D+"linalg.py"],
  [("warnings.warn sites and the conditions that guard them", D+"*.py"), ("covariate fallback", D+"staggered.py:_compute_att_gt_fast"), ("replication counts", D+"synthetic_did.py:_bootstrap_se, _placebo_variance_se"), ("failed removals", D+"diagnostics.py:leave_one_out_test, permutation_test")],
  over=("inputs","configurations"), technique="property-based testing: the condition of every announcement is computed from the generated input and compared in both directions; differential checks of the numbers after a fallback")



#--- more properties are added below ---


def emit():
    with open(ROOT / "properties.jsonl", "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            row = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                       anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"] or ["public API return values"], hook_needed=None))
            f.write(json.dumps(row) + "\n")
    man = dict(version=1, setup_cmd="true", checks=[], not_applicable=[],
               notes="One executable check per property: ./check.sh <ID> [quick|thorough]; --replay FILE reruns a reported case. No hooks: the checks import /repo's working tree directly (pure Python backend).")
    for p in PROPS:
        man["checks"].append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough", evidence_file=f"evidence/{p['id']}.json",
                                  technique=p["technique"], level="exploration",
                                  level_note="Generated-input search (Hypothesis, seeded, shrinking) against an independent oracle; bounded sizes, no proof of absence. See DESIGN.md."))
    json.dump(man, open(ROOT / "MANIFEST.json", "w"), indent=1)
    design(man)
    print(len(PROPS), "properties")


def design(man):
    import importlib, os, sys
    sys.path[:0] = [str(ROOT), os.environ.get("DD_REPO", "/repo")]
    os.environ.setdefault("DIFF_DIFF_BACKEND", "python")
    from harness import core
    out = [(ROOT / "tools" / "design_head.md").read_text(), "\n## Properties and how each is decided\n"]
    for p in PROPS:
        importlib.import_module(f"checks.{p['id'].lower()}")
        out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\nMethod: {p['technique']}. Domain: {p['text']}.\n")
        for n, f in core.FACETS[p["id"]].items():
            out.append(f"* `{n}` ({f.quick} quick / {f.thorough} thorough cases): {f.rule}")
        out.append("")
    tail = ROOT / "tools" / "design_tail.md"
    if tail.exists():
        out.append(tail.read_text())
    (ROOT / "DESIGN.md").write_text("\n".join(out))


if __name__ == "__main__":
    emit()
