"""C07 output mapping, C08 portfolio performance, generic convex problems and constraints."""
import collections
import json
import warnings

import cvxpy as cp
import numpy as np
import pandas as pd
import scipy.optimize as sco
from pypfopt import (BlackLittermanModel, CLA, EfficientCDaR, EfficientCVaR, EfficientFrontier, EfficientSemivariance, HRPOpt,
                     base_optimizer, exceptions)
from pypfopt.base_optimizer import BaseConvexOptimizer, BaseOptimizer, portfolio_performance
from spec.common import assume
from spec.portfolio import named, run, settled


class SetWeights:
    """set_weights stores the given weights in asset order."""
    prop = "C07"
    definite = ["in", "dkey", "minlen"]

    def code(names: "list", d: "numdict"):
        o = BaseOptimizer(len(names), names)
        o.set_weights(d)
        return {"attr": o.weights, "round": o._make_output_weights()}

    def want(names, d):
        v = np.array([d[k] for k in names])
        return {"attr": v, "round": named(names, v)}


class CleanWeights:
    """Small weights become zero, the rest is rounded, nothing else changes."""
    prop = "C07"
    raises = "C07"

    def code(names: "list", d: "numdict", cut: "float", rnd: "int"):
        o = BaseOptimizer(len(names), names)
        o.set_weights(d)
        c = o.clean_weights(cutoff=cut, rounding=rnd)
        return {"clean": c, "attr": o.weights, "default": o.clean_weights(), "exact": o.clean_weights(cut, None)}

    def want(names, d, cut, rnd):
        v = np.array([d[k] for k in names])
        if rnd < 1:
            raise ValueError("rounding")
        return {"clean": named(names, np.round(np.where(abs(v) < cut, 0, v), rnd)), "attr": v,
                "default": named(names, np.round(np.where(abs(v) < 0.0001, 0, v), 5)),
                "exact": named(names, np.where(abs(v) < cut, 0, v))}


class CleanWeightsTooEarly:
    prop = "C04"
    raises = "C04"

    def code(n: "int", what: ["clean", "save"], rnd: "float"):
        o = BaseOptimizer(n)
        if what == "clean":
            o.clean_weights()
        else:
            o.save_weights_to_file()
        return {"value": 1}

    def want(n, what, rnd):
        raise AttributeError("no weights")


class CleanWeightsBadRounding:
    prop = "C20"

    def code(names: "list", d: "numdict", rnd: "float"):
        o = BaseOptimizer(len(names), names)
        o.set_weights(d)
        return {"clean": o.clean_weights(rounding=rnd)}

    def want(names, d, rnd):
        v = np.array([d[k] for k in names])
        raise ValueError("rounding")


class SaveWeights:
    """The cleaned weights are written, in the format of the extension, to the named file only."""
    prop = "C07"
    map = {"files": "C07"}
    raises = "C07"

    def code(names: "list", d: "numdict", f: "str"):
        o = BaseOptimizer(len(names), names)
        o.set_weights(d)
        o.save_weights_to_file(f)
        return {"attr": o.weights}

    def want(names, d, f):
        v = np.array([d[k] for k in names])
        clean = named(names, np.round(np.where(abs(v) < 0.0001, 0, v), 5))
        ext = f.split(".")[-1].lower()
        if ext == "csv":
            pd.Series(clean).to_csv(f, header=False)
        elif ext == "json":
            with open(f, "w") as h:
                json.dump(clean, h)
        elif ext == "txt":
            with open(f, "w") as h:
                h.write(str(dict(clean)))
        else:
            raise NotImplementedError(ext)
        return {"attr": v}


class DefaultTickers:
    prop = "C07"

    def code(n: "int", v: "arr1"):
        o = BaseOptimizer(n)
        o.weights = v
        return {"names": o.tickers, "out": o._make_output_weights()}

    def want(n, v):
        return {"names": list(range(n)), "out": named(list(range(n)), v)}


class PerformanceArray:
    prop = "C08"
    map = {"printed": "C08"}

    def code(w: "arr1|numlist", mu: "ser|arr1", S: "df|arr2", rf: "float", verbose: "bool"):
        return {"value": portfolio_performance(w, mu, S, verbose, rf)}

    def want(w, mu, S, rf, verbose):
        w = np.asarray(w)
        sigma = np.sqrt(w @ S @ w)
        m = w @ mu
        if verbose:
            print(f"{m:.1%} {sigma:.1%} {(m - rf) / sigma}")
        return {"value": (m, sigma, (m - rf) / sigma)}


class PerformanceNoReturns:
    prop = "C08"
    map = {"printed": "C08"}

    def code(w: "arr1", S: "df|arr2", verbose: "bool"):
        return {"value": portfolio_performance(w, None, S, verbose)}

    def want(w, S, verbose):
        if verbose:
            print(f"{np.sqrt(w @ S @ w):.1%}")
        return {"value": (None, np.sqrt(w @ S @ w), None)}


class PerformanceDict:
    """Weights given by name are aligned with the assets of the returns (or of the covariance)."""
    prop = "C08"
    raises = "C08"
    definite = ["sorted", "spread", "dkey", "len"]

    def code(w: "numdict", mu: "ser|arr1", S: "df|arr2", rf: "float"):
        return {"value": portfolio_performance(w, mu, S, False, rf)}

    def want(w, mu, S, rf):
        if isinstance(mu, pd.Series):
            names = list(mu.index)
        elif isinstance(S, pd.DataFrame):
            names = list(S.columns)
        else:
            names = list(range(len(mu)))
        v = np.array([w[k] if k in w else 0 for k in names])
        if v.sum() == 0:
            raise ValueError("weights")
        sigma = np.sqrt(v @ S @ v)
        m = v @ mu
        return {"value": (m, sigma, (m - rf) / sigma)}


class PerformanceMissing:
    prop = "C08"
    raises = "C08"

    def code(mu: "ser", S: "df"):
        return {"value": portfolio_performance(None, mu, S)}

    def want(mu, S):
        raise ValueError("weights")


def solve_by(ef, how, t):
    if how == "min_volatility":
        ef.min_volatility()
    elif how == "risk":
        ef.efficient_risk(t)
    elif how == "return":
        ef.efficient_return(t)
    elif how == "utility":
        ef.max_quadratic_utility(t)
    elif how == "neutral":
        ef.max_quadratic_utility(t, True)
    else:
        ef.set_weights(t)


class OptimiserPerformance:
    """The optimiser reports the performance of the weights it delivered."""
    prop = "C08"
    map = {"printed": "C08"}
    skip = ["warnings"]

    def code(mu: "ser|arr1", S: "df|arr2", rf: "float", verbose: "bool"):
        ef = EfficientFrontier(mu, S)
        ef.min_volatility()
        return {"value": ef.portfolio_performance(verbose, rf)}

    def want(mu, S, rf, verbose):
        ef = EfficientFrontier(mu, S)
        ef.min_volatility()
        w = ef.weights
        sigma = np.sqrt(w @ S @ w)
        m = w @ mu
        if verbose:
            print(f"{m:.1%} {sigma:.1%} {(m - rf) / sigma}")
        return {"value": (m, sigma, (m - rf) / sigma)}


class MethodPerformance:
    """Whatever the method, the report uses the risk-free rate it is given (only max_sharpe has one of its own), without a warning."""
    prop = "C08"
    map = {"warnings": "C08"}

    def code(mu: "ser", S: "df", rf: "float", how: ["risk", "return", "utility", "neutral"], t: "float"):
        ef = EfficientFrontier(mu, S, (-1, 1))
        solve_by(ef, how, t)
        return {"value": ef.portfolio_performance(risk_free_rate=rf)}

    def want(mu, S, rf, how, t):
        ef = EfficientFrontier(mu, S, (-1, 1))
        solve_by(ef, how, t)
        w = ef.weights
        sigma = np.sqrt(w @ S @ w)
        m = w @ mu
        return {"value": (m, sigma, (m - rf) / sigma)}


def reporter(which, mu, S, R, d):
    if which == "frontier":
        e = EfficientFrontier(mu, S)
    elif which == "semi":
        e = EfficientSemivariance(mu, R)
    elif which == "hrp":
        e = HRPOpt(R)
    elif which == "cla":
        e = CLA(mu, S)
    else:
        e = BlackLittermanModel(S, pi=mu, absolute_views=d)
        e.bl_weights()
        return e
    e.set_weights(d)
    return e


class ReportTwice:
    """A report leaves nothing behind: the next one, at another risk-free rate, is as if it were the first."""
    prop = "C08"
    map = {"warnings": "C08", "printed": "C08", "again": "C08", "weights": "C08"}

    def code(which: ["frontier", "semi", "hrp", "cla", "bl"], mu: "ser", S: "df", R: "df", d: "numdict", a: "float", b: "float"):
        e = reporter(which, mu, S, R, d)
        first = e.portfolio_performance(risk_free_rate=a)
        again = e.portfolio_performance(risk_free_rate=b)
        return {"value": first, "again": again, "weights": e.weights}

    def want(which, mu, S, R, d, a, b):
        e = reporter(which, mu, S, R, d)
        first = e.portfolio_performance(risk_free_rate=a)
        fresh = reporter(which, mu, S, R, d)
        return {"value": first, "again": fresh.portfolio_performance(risk_free_rate=b), "weights": fresh.weights}


class TailReportTwice:
    prop = "C08"
    map = {"warnings": "C08", "printed": "C08", "again": "C08", "weights": "C08"}

    def code(which: ["cvar", "cdar"], mu: "ser", R: "df"):
        if which == "cvar":
            e = EfficientCVaR(mu, R)
            e.min_cvar()
        else:
            e = EfficientCDaR(mu, R)
            e.min_cdar()
        w = e.weights
        return {"value": e.portfolio_performance(), "again": e.portfolio_performance(), "weights": e.weights}

    def want(which, mu, R):
        if which == "cvar":
            e = EfficientCVaR(mu, R)
            e.min_cvar()
        else:
            e = EfficientCDaR(mu, R)
            e.min_cdar()
        w = e.weights
        first = e.portfolio_performance()
        return {"value": first, "again": first, "weights": w}


class SharpePerformance:
    """After max_sharpe its risk-free rate is used, with a warning when another one is passed."""
    prop = "C08"

    def code(mu: "ser", S: "df", rf: "float", other: "float"):
        ef = EfficientFrontier(mu, S)
        ef.max_sharpe(rf)
        return {"value": ef.portfolio_performance(risk_free_rate=other)}

    def want(mu, S, rf, other):
        ef = EfficientFrontier(mu, S)
        ef.max_sharpe(rf)
        w = ef.weights
        if rf != other:
            warnings.warn("risk-free rate", UserWarning)
        sigma = np.sqrt(w @ S @ w)
        m = w @ mu
        return {"value": (m, sigma, (m - rf) / sigma)}


class PerformanceTooEarly:
    prop = "C04"
    raises = "C04"

    def code(mu: "ser", S: "df"):
        return {"value": EfficientFrontier(mu, S).portfolio_performance()}

    def want(mu, S):
        ef = EfficientFrontier(mu, S)
        raise ValueError("weights")


class ConvexObjective:
    """Custom convex objectives: bounds, user constraints, extra objectives and the budget are all there."""
    prop = "C07"

    def code(n: "int", obj: "objfn", f: "objfn", g: "objfn", c: "confn", lo: "float", hi: "float", x: "float", one: [True, False]):
        o = BaseConvexOptimizer(n, weight_bounds=(lo, hi))
        o.add_objective(f)
        o.add_objective(g)
        o.add_constraint(c)
        return {"weights": o.convex_objective(obj, one, x=x), "attr": o.weights}

    def want(n, obj, f, g, c, lo, hi, x, one):
        w = cp.Variable(n)
        cons = [w >= np.array([lo] * n), w <= np.array([hi] * n), c(w)]
        if one:
            cons = cons + [cp.sum(w) == 1]
        run(cp.Problem(cp.Minimize(obj(w, x=x) + f(w) + g(w)), cons))
        return {"weights": named(list(range(n)), settled(w.value)), "attr": settled(w.value)}


class SectorConstraints:
    """Every listed sector limit applies to exactly the assets mapped to that sector."""
    prop = "C01"

    def code(names: "list", obj: "objfn", m: "dict", low: "numdict", up: "numdict"):
        o = BaseConvexOptimizer(len(names), names)
        o.add_sector_constraints(m, low, up)
        return {"weights": o.convex_objective(obj)}

    def want(names, obj, m, low, up):
        n = len(names)
        w = cp.Variable(n)
        cons = [w >= np.array([0] * n), w <= np.array([1] * n), cp.sum(w) == 1]
        for s in low:
            cons.append(cp.sum(w[[m.get(t) == s for t in names]]) >= low[s])
        for s in up:
            cons.append(cp.sum(w[[m.get(t) == s for t in names]]) <= up[s])
        run(cp.Problem(cp.Minimize(obj(w)), cons))
        return {"weights": named(names, settled(w.value))}


class SectorShortWarning:
    prop = "C20"

    def code(names: "list", m: "dict", low: "numdict", up: "numdict", lo: "float"):
        o = BaseConvexOptimizer(len(names), names, (lo, 1))
        o.add_sector_constraints(m, low, up)
        return {"value": 1}

    def want(names, m, low, up, lo):
        if np.any(np.array([lo] * len(names)) < 0):
            warnings.warn("shorts")
        return {"value": 1}


class BadConstraint:
    prop = "C20"

    def code(mu: "ser", S: "df", c: ["a string", 1, None]):
        ef = EfficientFrontier(mu, S)
        ef.add_constraint(c)
        return {"value": 1}

    def want(mu, S, c):
        ef = EfficientFrontier(mu, S)
        raise TypeError("constraint")


class NonconvexObjective:
    """SciPy problems carry the bounds, the budget and every user constraint."""
    prop = "C07"
    map = {"minimize": "C02"}

    def code(n: "int", obj: "objfn", lo: "float", hi: "float", one: [True, False], cons: "list", guess: "arr1", a: "arr1",
             which: ["default", "given", "tuple"]):
        o = BaseConvexOptimizer(n, weight_bounds=(lo, hi))
        if which == "default":
            return {"weights": o.nonconvex_objective(obj, a, one), "attr": o.weights}
        if which == "tuple":
            return {"weights": o.nonconvex_objective(obj, (a, lo), weights_sum_to_one=one), "attr": o.weights}
        return {"weights": o.nonconvex_objective(obj, objective_args=a, weights_sum_to_one=one, constraints=cons, solver="trust-constr",
                                                 initial_guess=guess), "attr": o.weights}

    def want(n, obj, lo, hi, one, cons, guess, a, which):
        budget = [{"type": "eq", "fun": lambda w: np.sum(w) - 1}] if one else []
        bounds = [(lo, hi) for i in range(n)]
        start = np.array([1 / n] * n)
        if which == "default":
            r = sco.minimize(obj, start, args=(a,), method="SLSQP", bounds=bounds, constraints=budget)
        elif which == "tuple":
            r = sco.minimize(obj, start, args=(a, lo), method="SLSQP", bounds=bounds, constraints=budget)
        else:
            r = sco.minimize(obj, guess, args=(a,), method="trust-constr", bounds=bounds, constraints=budget + cons)
        return {"weights": named(list(range(n)), r.x), "attr": r.x}
