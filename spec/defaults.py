"""What an omitted option means: the documented default, whatever the data."""
import numpy as np
import pandas as pd
from pypfopt import (BlackLittermanModel, CLA, DiscreteAllocation, EfficientCDaR, EfficientCVaR, EfficientFrontier, EfficientSemivariance,
                     HRPOpt, black_litterman, expected_returns, objective_functions, plotting, risk_models)
from pypfopt.base_optimizer import BaseConvexOptimizer, portfolio_performance
from spec.common import assume


class ReturnDefaults:
    """Prices, daily data, geometric compounding, simple returns."""
    prop = "C12"

    def code(prices: "df", what: ["mean", "ema", "capm", "model"]):
        if what == "mean":
            return {"value": expected_returns.mean_historical_return(prices)}
        if what == "ema":
            return {"value": expected_returns.ema_historical_return(prices)}
        if what == "capm":
            return {"value": expected_returns.capm_return(prices)}
        return {"value": expected_returns.return_model(prices)}

    def want(prices, what):
        if what == "ema":
            return {"value": expected_returns.ema_historical_return(
                prices, returns_data=False, compounding=True, span=500, frequency=252, log_returns=False)}
        if what == "capm":
            return {"value": expected_returns.capm_return(
                prices, market_prices=None, returns_data=False, risk_free_rate=0, compounding=True, frequency=252, log_returns=False)}
        return {"value": expected_returns.mean_historical_return(
            prices, returns_data=False, compounding=True, frequency=252, log_returns=False)}


class ReturnArguments:
    """Options keep their documented positions."""
    prop = "C12"

    def code(x: "df", market: "df", what: ["mean", "ema", "capm"], freq: "int", span: "int", rf: "float"):
        if what == "mean":
            return {"value": expected_returns.mean_historical_return(x, True, False, freq, False)}
        if what == "ema":
            return {"value": expected_returns.ema_historical_return(x, True, False, span, freq, False)}
        return {"value": expected_returns.capm_return(x, market, True, rf, False, freq, False)}

    def want(x, market, what, freq, span, rf):
        if what == "mean":
            return {"value": expected_returns.mean_historical_return(x, returns_data=True, compounding=False, frequency=freq, log_returns=False)}
        if what == "ema":
            return {"value": expected_returns.ema_historical_return(
                x, returns_data=True, compounding=False, span=span, frequency=freq, log_returns=False)}
        return {"value": expected_returns.capm_return(
            x, market_prices=market, returns_data=True, risk_free_rate=rf, compounding=False, frequency=freq, log_returns=False)}


class ConversionDefaults:
    prop = "C13"

    def code(prices: "df", back: [False, True]):
        if back:
            return {"value": expected_returns.prices_from_returns(prices)}
        return {"value": expected_returns.returns_from_prices(prices)}

    def want(prices, back):
        if back:
            return {"value": expected_returns.prices_from_returns(prices, log_returns=False)}
        return {"value": expected_returns.returns_from_prices(prices, log_returns=False)}


class RiskDefaults:
    """Prices, daily data, simple returns; the documented benchmark, span and repair."""
    prop = "C10"

    def code(prices: "df", what: ["sample", "semi", "exp", "model"]):
        if what == "sample":
            return {"value": risk_models.sample_cov(prices)}
        if what == "semi":
            return {"value": risk_models.semicovariance(prices)}
        if what == "exp":
            return {"value": risk_models.exp_cov(prices)}
        return {"value": risk_models.risk_matrix(prices)}

    def want(prices, what):
        if what == "semi":
            return {"value": risk_models.semicovariance(
                prices, returns_data=False, benchmark=0.000079, frequency=252, log_returns=False, fix_method="spectral")}
        if what == "exp":
            return {"value": risk_models.exp_cov(
                prices, returns_data=False, span=180, frequency=252, log_returns=False, fix_method="spectral")}
        return {"value": risk_models.sample_cov(prices, returns_data=False, frequency=252, log_returns=False, fix_method="spectral")}


class RiskArguments:
    prop = "C10"

    def code(x: "df", what: ["sample", "semi", "exp"], freq: "int", span: "int", b: "float"):
        if what == "sample":
            return {"value": risk_models.sample_cov(x, True, freq, False)}
        if what == "semi":
            return {"value": risk_models.semicovariance(x, True, b, freq, False)}
        return {"value": risk_models.exp_cov(x, True, span, freq, False)}

    def want(x, what, freq, span, b):
        if what == "sample":
            return {"value": risk_models.sample_cov(x, returns_data=True, frequency=freq, log_returns=False)}
        if what == "semi":
            return {"value": risk_models.semicovariance(x, returns_data=True, benchmark=b, frequency=freq, log_returns=False)}
        return {"value": risk_models.exp_cov(x, returns_data=True, span=span, frequency=freq, log_returns=False)}


class RepairDefault:
    prop = "C11"

    def code(m: "df"):
        return {"value": risk_models.fix_nonpositive_semidefinite(m)}

    def want(m):
        return {"value": risk_models.fix_nonpositive_semidefinite(m, fix_method="spectral")}


class ShrinkageDefaults:
    prop = "C25"

    def code(prices: "df", what: ["shrunk", "lw"]):
        c = risk_models.CovarianceShrinkage(prices)
        return {"value": c.shrunk_covariance() if what == "shrunk" else c.ledoit_wolf()}

    def want(prices, what):
        c = risk_models.CovarianceShrinkage(prices, returns_data=False, frequency=252, log_returns=False)
        return {"value": c.shrunk_covariance(delta=0.2) if what == "shrunk" else c.ledoit_wolf(shrinkage_target="constant_variance")}


class ObjectiveDefaults:
    prop = "C09"

    def code(w: "arr1", mu: "arr1", S: "arr2", w0: "arr1", ra: "float", what: ["ret", "sharpe", "l2", "utility", "cost"]):
        if what == "ret":
            return {"value": objective_functions.portfolio_return(w, mu)}
        if what == "sharpe":
            return {"value": objective_functions.sharpe_ratio(w, mu, S)}
        if what == "l2":
            return {"value": objective_functions.L2_reg(w)}
        if what == "utility":
            return {"value": objective_functions.quadratic_utility(w, mu, S, ra)}
        return {"value": objective_functions.transaction_cost(w, w0)}

    def want(w, mu, S, w0, ra, what):
        if what == "ret":
            return {"value": objective_functions.portfolio_return(w, mu, negative=True)}
        if what == "sharpe":
            return {"value": objective_functions.sharpe_ratio(w, mu, S, risk_free_rate=0, negative=True)}
        if what == "l2":
            return {"value": objective_functions.L2_reg(w, gamma=1)}
        if what == "utility":
            return {"value": objective_functions.quadratic_utility(w, mu, S, risk_aversion=ra, negative=True)}
        return {"value": objective_functions.transaction_cost(w, w_prev=w0, k=0.001)}


class PerformanceDefaults:
    """A quiet report at a zero risk-free rate, on daily data."""
    prop = "C08"
    map = {"printed": "C08"}

    def code(w: "arr1", mu: "ser", S: "df", R: "df", d: "numdict", what: ["function", "ef", "semi", "hrp", "bl"]):
        if what == "function":
            return {"value": portfolio_performance(w, mu, S)}
        if what == "ef":
            o = EfficientFrontier(mu, S)
        elif what == "semi":
            o = EfficientSemivariance(mu, R)
        elif what == "hrp":
            o = HRPOpt(R)
        else:
            o = BlackLittermanModel(S, pi=w, absolute_views=d)
        o.set_weights(d)
        return {"value": o.portfolio_performance()}

    def want(w, mu, S, R, d, what):
        if what == "function":
            return {"value": portfolio_performance(w, mu, S, verbose=False, risk_free_rate=0)}
        if what == "ef":
            o = EfficientFrontier(mu, S)
        elif what == "semi":
            o = EfficientSemivariance(mu, R, frequency=252, benchmark=0)
        elif what == "hrp":
            o = HRPOpt(R)
            o.set_weights(d)
            return {"value": o.portfolio_performance(verbose=False, risk_free_rate=0, frequency=252)}
        else:
            o = BlackLittermanModel(S, pi=w, absolute_views=d)
        o.set_weights(d)
        return {"value": o.portfolio_performance(verbose=False, risk_free_rate=0)}


class PriorDefaults:
    prop = "C16"

    def code(caps: "ser", ra: "float", S: "df", prices: "ser", aversion: [False, True]):
        if aversion:
            return {"value": black_litterman.market_implied_risk_aversion(prices)}
        return {"value": black_litterman.market_implied_prior_returns(caps, ra, S)}

    def want(caps, ra, S, prices, aversion):
        if aversion:
            return {"value": black_litterman.market_implied_risk_aversion(prices, frequency=252, risk_free_rate=0)}
        return {"value": black_litterman.market_implied_prior_returns(caps, ra, S, risk_free_rate=0)}


class ViewDefaults:
    """tau is 0.05, the risk aversion 1 (the model's own for its weights), the uncertainty proportional to the variance."""
    prop = "C15"

    def code(S: "df", pi: "ser", Q: "arr1", P: "arr2", what: ["returns", "cov", "weights"]):
        m = BlackLittermanModel(S, pi=pi, Q=Q, P=P)
        if what == "returns":
            return {"value": m.bl_returns()}
        if what == "cov":
            return {"value": m.bl_cov()}
        return {"value": m.bl_weights()}

    def want(S, pi, Q, P, what):
        m = BlackLittermanModel(S, pi=pi, absolute_views=None, Q=Q, P=P, omega=None, view_confidences=None, tau=0.05, risk_aversion=1)
        if what == "returns":
            return {"value": m.bl_returns()}
        if what == "cov":
            return {"value": m.bl_cov()}
        return {"value": m.bl_weights(risk_aversion=1)}


class TreeDefault:
    prop = "C17"

    def code(R: "df"):
        return {"value": HRPOpt(R).optimize()}

    def want(R):
        return {"value": HRPOpt(R, cov_matrix=None).optimize(linkage_method="single")}


class AllocationDefaults:
    """Ten thousand, no reinvestment of the short sales, a quiet run."""
    prop = "C19"
    map = "report"

    def code(weights: "numdict", prices: "ser", lp: [True, False]):
        d = DiscreteAllocation(weights, prices)
        if lp:
            a, left = d.lp_portfolio()
        else:
            a, left = d.greedy_portfolio()
        return {"shares": a, "left": left}

    def want(weights, prices, lp):
        d = DiscreteAllocation(weights, prices, total_portfolio_value=10000, short_ratio=None)
        if lp:
            a, left = d.lp_portfolio(reinvest=False, verbose=False, solver="ECOS_BB")
        else:
            a, left = d.greedy_portfolio(reinvest=False, verbose=False)
        return {"shares": a, "left": left}


class OptimiserDefaults:
    """Long-only bounds, the default solver, fully invested portfolios."""
    prop = "C07"
    map = {"printed": "C07"}

    def code(mu: "ser", S: "df", R: "df", x: "float",
             what: ["minvol", "sharpe", "utility", "utility0", "risk", "return",
                    "semi", "semirisk", "semireturn", "semiutility", "semiutility0", "cvar", "cvarrisk", "cvarreturn", "cdar", "cdarrisk", "cdarreturn"]):
        if what[:4] == "semi":
            o = EfficientSemivariance(mu, R)
        elif what[:4] == "cvar":
            o = EfficientCVaR(mu, R)
        elif what[:4] == "cdar":
            o = EfficientCDaR(mu, R)
        else:
            o = EfficientFrontier(mu, S)
        if what == "minvol":
            w = o.min_volatility()
        elif what == "sharpe":
            w = o.max_sharpe()
        elif what in ("utility", "semiutility"):
            w = o.max_quadratic_utility(x)
        elif what in ("utility0", "semiutility0"):
            w = o.max_quadratic_utility()
        elif what == "semi":
            w = o.min_semivariance()
        elif what == "cvar":
            w = o.min_cvar()
        elif what == "cdar":
            w = o.min_cdar()
        elif what[-4:] == "risk":
            w = o.efficient_risk(x)
        else:
            w = o.efficient_return(x)
        return {"weights": w, "attr": o.weights}

    def want(mu, S, R, x, what):
        if what[:4] == "semi":
            o = EfficientSemivariance(mu, R, frequency=252, benchmark=0, weight_bounds=(0, 1), solver=None, verbose=False, solver_options=None)
        elif what[:4] == "cvar":
            o = EfficientCVaR(mu, R, beta=0.95, weight_bounds=(0, 1), solver=None, verbose=False, solver_options=None)
        elif what[:4] == "cdar":
            o = EfficientCDaR(mu, R, beta=0.95, weight_bounds=(0, 1), solver=None, verbose=False, solver_options=None)
        else:
            o = EfficientFrontier(mu, S, weight_bounds=(0, 1), solver=None, verbose=False, solver_options=None)
        if what == "minvol":
            w = o.min_volatility()
        elif what == "sharpe":
            w = o.max_sharpe(risk_free_rate=0)
        elif what in ("utility", "semiutility"):
            w = o.max_quadratic_utility(risk_aversion=x, market_neutral=False)
        elif what in ("utility0", "semiutility0"):
            w = o.max_quadratic_utility(risk_aversion=1, market_neutral=False)
        elif what == "semi":
            w = o.min_semivariance(market_neutral=False)
        elif what == "cvar":
            w = o.min_cvar(market_neutral=False)
        elif what == "cdar":
            w = o.min_cdar(market_neutral=False)
        elif what[-4:] == "risk":
            w = o.efficient_risk(x, market_neutral=False)
        else:
            w = o.efficient_return(x, market_neutral=False)
        return {"weights": w, "attr": o.weights}


class CustomDefaults:
    prop = "C07"

    def code(n: "int", f: "objfn"):
        o = BaseConvexOptimizer(n)
        return {"weights": o.convex_objective(f), "attr": o.weights}

    def want(n, f):
        o = BaseConvexOptimizer(n, tickers=None, weight_bounds=(0, 1), solver=None, verbose=False, solver_options=None)
        return {"weights": o.convex_objective(f, weights_sum_to_one=True), "attr": o.weights}


class CleanDefaults:
    """Weights below one in ten thousand are dropped and five decimals kept."""
    prop = "C07"

    def code(mu: "ser", S: "df", d: "numdict"):
        o = EfficientFrontier(mu, S)
        o.set_weights(d)
        return {"clean": o.clean_weights()}

    def want(mu, S, d):
        o = EfficientFrontier(mu, S)
        o.set_weights(d)
        return {"clean": o.clean_weights(cutoff=0.0001, rounding=5)}
