"""Source of /verif/properties.jsonl: run `python3 tools/properties.py > properties.jsonl`."""
import json

EF = "pypfopt/efficient_frontier/"
BASE = "pypfopt/base_optimizer.py"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None):
    assert len(title) <= 80, title
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": " ".join(qtext.split())}, "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append(d)


prop("C01", "Every requested constraint reaches the solved problem, none is lost or altered",
     """Whatever an optimisation is asked to respect - the budget, per-asset weight bounds in any accepted form (one pair, a list of
     pairs, a pair of arrays, None on a side), sector caps and floors, user constraints added one by one, and the target of the
     method (return, risk, semideviation, CVaR, CDaR, leverage of a market-neutral portfolio) - is present in the problem that is
     given to the solver, with its coefficients, direction and scaling intact. Nothing else is added. For the maximum-Sharpe problem, which is
     solved in rescaled variables, each of them appears in its rescaled form.""",
     ["inputs", "configurations", "histories"],
     "For every universe size, every bound specification, every sequence of added constraints, and every optimisation method of each frontier class.",
     """The tests solve a few fixed problems where most constraints do not bind; a constraint dropped, doubled or mis-scaled shows
     only on inputs where it binds.""",
     [BASE, EF + "efficient_frontier.py", EF + "efficient_semivariance.py", EF + "efficient_cvar.py", EF + "efficient_cdar.py"],
     [("bounds to constraints", "BaseConvexOptimizer._map_bounds_to_constraints"), ("user constraints", "BaseConvexOptimizer.add_constraint, add_sector_constraints"),
      ("budget / market neutrality", "EfficientFrontier._make_weight_sum_constraint"), ("rescaling", "EfficientFrontier.max_sharpe"),
      ("targets", "efficient_risk, efficient_return of the four frontier classes")],
     [("constraint list", "what the next solve has to respect")])

prop("C02", "Each optimisation method optimises the objective it is named for",
     """Each method hands the solver the objective its documentation names, in the right direction: least variance, greatest Sharpe
     ratio in its convex reformulation, greatest return for a risk, least risk for a return, greatest utility with its risk aversion, least
     semivariance, CVaR or CDaR with their tail level, benchmark and frequency. Every extra objective term the user has added enters
     exactly once, with its sign, and the chosen solver, its options and verbosity are passed on.""",
     ["inputs", "configurations", "histories"],
     "For every data set, parameter value, number of added objective terms and solver setting.",
     """Tests compare weights on one data set to stored digits; a wrong scale, sign or a doubled term often leaves those
     optima unchanged, or is not exercised at all with other parameters.""",
     [BASE, EF + "efficient_frontier.py", EF + "efficient_semivariance.py", EF + "efficient_cvar.py", EF + "efficient_cdar.py", "pypfopt/objective_functions.py"],
     [("objectives", "methods of the four frontier classes"), ("extra objectives", "BaseConvexOptimizer.add_objective"),
      ("custom problems", "convex_objective, nonconvex_objective"), ("solver call", "BaseConvexOptimizer._solve_cvxpy_opt_problem")])

prop("C03", "Weights are published only after the solver reports an optimal solution",
     """A convex optimisation that does not end with the solver reporting an optimal solution (to full or reduced accuracy) - infeasible,
     unbounded, or a problem the modelling layer rejects - raises the package's optimisation error, and neither returns weights nor leaves new ones behind as the result.
     When the solver does succeed, the weights published are those of that very problem, rescaled where the method solved a rescaled problem.""",
     ["inputs", "fault_sequences", "histories"],
     "For every solver outcome at every solve, in every optimisation method of every frontier class.",
     "The tests provoke a handful of infeasible problems; the other failure statuses and the solver exceptions are never produced.",
     [BASE, EF + "efficient_frontier.py"],
     [("status check", "BaseConvexOptimizer._solve_cvxpy_opt_problem")], [("status", "outcome reported by the solver")])

prop("C04", "A solved problem cannot be silently changed; misuse of the instance is refused",
     """After an optimiser has been solved once, adding an objective or constraint, switching to an incompatible method that
     would inherit the solved problem's constraints, or turning market neutrality on or off, is refused with the instantiation
     error instead of silently giving the answer to another problem. Before any solve all of these are accepted.""",
     ["histories"], "For every sequence of public calls on one optimiser instance.",
     "Tests sample a few call sequences; the property is over all of them.",
     [BASE, EF + "efficient_frontier.py", EF + "efficient_semivariance.py", EF + "efficient_cvar.py", EF + "efficient_cdar.py"],
     [("guards", "add_objective, add_constraint, _validate_market_neutral"), ("problem reuse", "is_parameter_defined, update_parameter_value")],
     [("compiled problem", "set by the first solve")])

prop("C05", "Solving again with a new target equals solving a fresh problem with that target",
     """Calling a parametrised method (target return, target risk, risk aversion, target semideviation, CVaR or CDaR) repeatedly on one
     instance with new values solves, each time, exactly the problem a fresh instance would solve with the latest values. No earlier target,
     temporary objective or constraint from an internal helper solve survives, and an invalid or failed call in between
     leaves later calls correct.""",
     ["histories"], "For every sequence of repeated calls and target values, on each frontier class.",
     "Tests make two calls with well-behaved targets; stale state shows only for particular values and orders.",
     [BASE, EF + "efficient_frontier.py", EF + "efficient_semivariance.py", EF + "efficient_cvar.py", EF + "efficient_cdar.py"],
     [("parameters", "BaseConvexOptimizer.update_parameter_value, is_parameter_defined"), ("helper solve", "EfficientFrontier.efficient_return, _max_return")],
     [("compiled problem and parameters", "kept between solves")])

prop("C06", "Inputs belonging to the caller are never modified",
     """No public operation changes an object the caller handed in: price and return tables, covariance matrices, expected returns,
     views, weight dictionaries, bounds, lists of constraints, or solver options. In particular a result never shares storage
     with an input such that producing it writes into that input.""",
     ["inputs", "programs"], "For every public function and method and every type of argument it accepts.",
     "Tests rarely look at their inputs after a call, and never for all branches and argument types.",
     ["pypfopt/"], [("in-place writes", "every assignment, augmented assignment, mutator call or in-place flag reachable from a public entry")])

prop("C07", "Reported weights are the solution, keyed by asset in input order",
     """The returned mapping pairs every asset of the input, in the input's order, with that asset's weight and nothing else; setting weights by
     hand stores each under its own asset whatever the order of the mapping given. Cleaning zeroes exactly the weights whose magnitude
     is below the cutoff and rounds the rest to the requested decimals without changing the stored raw weights. Saving writes exactly the cleaned weights in the format
     the file name asks for, and refuses other formats.""",
     ["inputs", "configurations"], "For every universe, naming of assets, weight vector, cutoff, rounding and file name.",
     "Tests use one ordered universe and its all-positive weights.",
     [BASE], [("mapping", "BaseOptimizer._make_output_weights, set_weights"), ("cleaning", "BaseOptimizer.clean_weights"), ("saving", "BaseOptimizer.save_weights_to_file")])

prop("C08", "Reported performance is the performance of the weights at hand",
     """The performance report evaluates the current weights (or the mapping given) with the documented formulas: expected
     return, volatility, semideviation with its benchmark and frequency, CVaR and CDaR at their tail level, and Sharpe or Sortino ratio with the risk-free rate
     asked for. Assets are matched by name where names are given, missing quantities are reported as absent, and weights that are all zero or not yet
     computed are refused.""",
     ["inputs", "configurations", "histories"], "For every weight vector or mapping, data set, risk-free rate and class.",
     "Tests check stored digits at the optimum of one data set.",
     [BASE, EF + "efficient_frontier.py", EF + "efficient_semivariance.py", EF + "efficient_cvar.py", EF + "efficient_cdar.py"],
     [("formulas", "base_optimizer.portfolio_performance and the class methods of that name")])

prop("C09", "Each objective function computes its documented formula, symbolic or numeric",
     """Variance, return, quadratic utility, Sharpe ratio, L2 penalty, transaction cost and ex-ante / ex-post tracking error
     each equal their documented formula in the weights and parameters, with the sign that makes minimising them right, whether the weights are a
     plain vector or an optimisation variable.""",
     ["inputs"], "For all weights, data and parameter values, on both the numeric and the symbolic path.",
     "Tests evaluate each at one point, where different formulas can agree.",
     ["pypfopt/objective_functions.py"], [("formulas", "every function of the module")])

prop("C10", "Risk models return the documented annualised estimate, labelled by asset",
     """Sample, semi-, exponentially weighted and minimum-determinant covariance estimates and the covariance/correlation
     conversions equal their documented formula in the (simple or log) returns, annualised by the frequency given, and carry the asset
     labels of the data on both axes in data order. Prices and returns are interpreted as the caller says, not guessed.""",
     ["inputs", "configurations"], "For every price or return table, benchmark, span, frequency and flag combination.",
     "Tests check shapes, positive diagonals and a few stored numbers.",
     ["pypfopt/risk_models.py"], [("estimators", "sample_cov, semicovariance, exp_cov, min_cov_determinant, cov_to_corr, corr_to_cov")])

prop("C11", "Covariances that are not positive semidefinite are repaired as documented",
     """Every risk model checks its result and, when it is not positive semidefinite, repairs it by the chosen method (clip negative
     eigenvalues, or shift the diagonal), warns, and keeps labels. A matrix that already is positive semidefinite is returned
     unchanged, without a warning.""",
     ["inputs"], "For every symmetric matrix and repair method; both outcomes of the definiteness test.",
     "Tests repair two matrices; they do not show that every estimator passes through the repair.",
     ["pypfopt/risk_models.py"], [("repair", "fix_nonpositive_semidefinite, _is_positive_semidefinite")])

prop("C12", "Expected-return models return the documented annualised estimate per asset",
     """Mean historical, exponentially weighted and CAPM expected returns equal their documented formula - compounded or
     arithmetic, with the given frequency, span, market data and risk-free rate - one value per asset under the asset's own label.""",
     ["inputs", "configurations"], "For every price or return table, market series, span, frequency and flag combination.",
     "Tests check signs, shapes and a few stored numbers on one data set.",
     ["pypfopt/expected_returns.py"], [("estimators", "mean_historical_return, ema_historical_return, capm_return")])

prop("C13", "Prices and returns convert by the documented formulas, row by row",
     """Converting prices to returns gives the simple or log change from each row to the next and drops only rows that
     cannot be computed; converting returns to pseudo-prices inverts it up to the common starting value. Names and time order are preserved.""",
     ["inputs", "configurations"], "For every table and flag.",
     "Tests convert one table.",
     ["pypfopt/expected_returns.py"], [("conversions", "returns_from_prices, prices_from_returns, log_returns_from_prices")])

prop("C14", "Model selection by name runs exactly the named model with the caller's options",
     """The by-name entry points for risk models and return models accept every documented name, run that model on the caller's data,
     pass on every option given, and refuse unknown names.""",
     ["inputs", "configurations"], "For every documented name, every option and every other string.",
     "Tests try a few names, mostly with default options.",
     ["pypfopt/risk_models.py", "pypfopt/expected_returns.py"], [("dispatch", "risk_matrix, return_model")])

prop("C15", "Black-Litterman posterior follows its formula with correctly mapped views",
     """Views given as a vector, table, or mapping by asset name are mapped to the right assets; the posterior returns, posterior covariance,
     implied weights, default and Idzorek view uncertainties, and the default prior, equal the documented formulas in
     prior, views, picking matrix, uncertainty and tau. Degenerate numeric cases (a singular system, full confidence, zero confidence) follow the documented
     fallback, and malformed combinations are refused.""",
     ["inputs", "configurations"], "For every prior form, view form, uncertainty form and tau.",
     "Tests check stored numbers for a few configurations; a wrong mapping or formula can agree there.",
     ["pypfopt/black_litterman.py"], [("parsing", "BlackLittermanModel.__init__, _parse_views, _set_pi, _set_Q_P, _set_omega, _set_tau"),
                                      ("formulas", "bl_returns, bl_cov, bl_weights, idzorek_method, default_omega")])

prop("C16", "Market-implied prior and risk aversion follow their formulas",
     """Market-implied prior returns equal risk aversion times covariance times capitalisation weights (plus risk-free rate), with capitalisations matched to
     the assets of the covariance; market-implied risk aversion equals annualised excess return over variance of the market
     prices given, and malformed inputs are refused.""",
     ["inputs"], "For every market data set, form of capitalisations, covariance type and parameter.",
     "Tests compare a few stored numbers.",
     ["pypfopt/black_litterman.py"], [("formulas", "market_implied_prior_returns, market_implied_risk_aversion")])

prop("C17", "Hierarchical risk parity allocates by documented clustering and bisection",
     """The allocation orders assets by the hierarchical clustering (with the linkage asked for) of the documented correlation distance and splits weight
     recursively between halves by inverse cluster variance, each cluster with inverse-variance weights; every asset gets exactly its own weight.
     An unknown linkage or missing data is refused, and performance uses the covariance given, else that of the returns with the frequency asked for.""",
     ["inputs", "configurations"], "For every return table or covariance matrix and linkage.",
     "Tests compare one universe's stored weights.",
     ["pypfopt/hierarchical_portfolio.py"], [("allocation", "HRPOpt.optimize, _raw_hrp_allocation, _get_cluster_var, _get_quasi_diag")])

prop("C18", "Critical-line results come from its turning points, within the given bounds",
     """The critical-line optimiser takes bounds in every accepted form, written as whole numbers or fractions, and applies them per asset. It is walked once: from the vertex that fills the highest expected returns first, each turning point is the largest multiplier below the last at which an asset leaves or joins the free set, with the weights that are stationary there, until no multiplier is left and the minimum-variance point ends the walk; turning points outside the bounds or off the efficient frontier are dropped. Its minimum-volatility portfolio is the
     turning point of least variance, its maximum-Sharpe portfolio is the best of its segments' maximisers of return over
     volatility, its frontier interpolates between consecutive turning points with the volatility and return of each. Weights set by hand are refused,
     and performance is reported for the chosen weights.""",
     ["inputs", "configurations"], "For every set of turning points, covariance, expected returns and bounds.",
     "Tests compare one universe's stored optima.",
     ["pypfopt/cla.py"], [("bounds", "CLA.__init__"), ("selection", "CLA.min_volatility, max_sharpe, efficient_frontier"), ("search", "CLA._golden_section, _eval_sr")])

prop("C19", "Discrete allocation spends what it reports and buys only the assets asked for",
     """Discrete allocation turns weights into whole-share counts for the right assets at their own latest price, in long and short books funded by
     the stated total and short ratio, reinvesting only when asked, drops assets with no shares, and the leftover it reports is the cash of that book
     left unspent. The integer-programming method minimises the documented deviation plus unspent cash over integer counts; infeasible problems are
     reported; the error report measures the deviation of the allocation at hand, prices may be whole numbers, and a verbose run prints the numbers it returns or stores.""",
     ["inputs", "configurations"], "For every weight mapping, price table, portfolio value, short ratio and method.",
     "Tests allocate a few portfolios and check some totals.",
     ["pypfopt/discrete_allocation.py"], [("allocation", "DiscreteAllocation.greedy_portfolio, lp_portfolio, _remove_zero_positions"), ("report", "_allocation_rmse_error"), ("prices", "get_latest_prices")])

prop("C20", "Invalid arguments are refused with the documented error, valid ones accepted",
     """Every public entry point refuses exactly the arguments its contract excludes (wrong types, wrong shapes, mismatched
     dimensions, missing or misnamed assets, targets or parameters out of range, unknown names) with a value or type error, and refuses no
     argument its contract allows.""",
     ["inputs"], "For every entry point and argument, on both sides of each limit.",
     "Tests probe a few bad values each; limits and their direction at the boundary are not explored.",
     ["pypfopt/"], [("validation", "raise statements reachable from public entry points")])

prop("C21", "Computations are deterministic and silent: output and files only on request",
     """No computation prints, shows a figure, writes a file, draws random numbers, reads the clock or changes global library
     state unless the caller asked for it by argument (verbose reports, file names, show flags); what a verbose flag adds is output only.""",
     ["inputs", "programs"], "For every public entry point, path and argument.",
     "Tests do not capture output or global state across all paths.",
     ["pypfopt/"], [("effects", "every call reachable from a public entry point, and import-time code")])

prop("C22", "Optional dependencies are needed only by the features that use them",
     """When an optional library (machine-learning, plotting, interactive plotting) is missing, only the
     features that need it fail, with an import error, and everything else keeps working, importing the package included.""",
     ["configurations", "fault_sequences"], "For every subset of missing optional dependencies and every public entry point.",
     "The test environment has them all installed.",
     ["pypfopt/"], [("imports", "import statements at module level and inside functions")])

prop("C23", "Figures show the data they are given, with axes and labels matched",
     """A weights chart shows each asset's weight against its own name in descending order; the covariance heat map shows that
     covariance or its correlation with the right labels; the dendrogram shows that clustering; a frontier plot passes the optimiser's own (risk, return)
     points for each parameter value and marks assets at their own risk and return. A figure is saved or shown after it is complete and only if asked.""",
     ["inputs", "configurations"], "For every weights mapping, matrix, optimiser and option.",
     "Tests only check that some axes object comes back.",
     ["pypfopt/plotting.py"], [("figures", "plot_covariance, plot_dendrogram, plot_efficient_frontier, plot_weights, _plot_io")])

prop("C24", "Methods a risk measure does not support refuse instead of answering",
     """Frontier classes refuse, with the not-implemented error, the inherited methods that make no sense for their risk
     measure, and offer every other one; the abstract optimisation interface never returns a meaningless result.""",
     ["programs", "inputs"], "For every frontier class and inherited public method, with any arguments and at any moment.",
     "Tests call a few of them, once each.",
     [BASE, EF + "efficient_semivariance.py", EF + "efficient_cvar.py", EF + "efficient_cdar.py", "pypfopt/cla.py"],
     [("refusals", "overrides that raise NotImplementedError")])

prop("C25", "Shrinkage estimators follow their published formulas",
     """Each covariance shrinkage (manual, Ledoit-Wolf with its three targets, oracle approximating) combines the sample covariance
     and the named target with the documented shrinkage intensity, bounded to its range, annualised by the frequency given and labelled by asset.""",
     ["inputs", "configurations"], "For every return or price table, target and frequency.",
     "Tests check the intensity's range and stored digits for one data set.",
     ["pypfopt/risk_models.py"], [("estimators", "CovarianceShrinkage and its methods")])

prop("C26", "Published weights are numerically optimal and feasible to solver tolerance",
     """The numbers a solver returns satisfy the constraints and attain the optimum of the problem given to it within its tolerance, and moving
     a target moves the optimum monotonically.""",
     ["inputs"], "For every problem instance.", "Tests solve a few instances.",
     [BASE], [("solver call", "BaseConvexOptimizer._solve_cvxpy_opt_problem")])

prop("C27", "The critical-line algorithm finds all turning points of the constrained frontier",
     """The sequence of turning points computed by the critical-line algorithm is complete and each is an optimal solution of the bounded
     mean-variance problem, whatever the data and rounding.""",
     ["inputs"], "For every mean vector, covariance matrix and bounds.", "Tests solve one universe.",
     ["pypfopt/cla.py"], [("iteration", "CLA._solve, _compute_lambda, _compute_w")])

prop("C28", "Repaired and shrunk matrices are positive semidefinite in floating point",
     """Whatever is returned by a risk model has no negative eigenvalue, in floating-point arithmetic.""",
     ["inputs"], "For every data set.", "Tests check a few.", ["pypfopt/risk_models.py"], [("repair", "fix_nonpositive_semidefinite")])

if __name__ == "__main__":
    for d in P:
        print(json.dumps(d))
