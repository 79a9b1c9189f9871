"""Mean-variance optimisation: what is solved, under which constraints, and what is returned."""
import warnings

import cvxpy as cp
import numpy as np
import pandas as pd
from pypfopt import EfficientFrontier, exceptions, objective_functions
from spec.common import assume
from spec.portfolio import Problem, named, run, settled


class MinVolatility:
    prop = "C07"

    def code(mu: "ser|arr1", S: "df|arr2", lo: "float", hi: "float"):
        ef = EfficientFrontier(mu, S, weight_bounds=(lo, hi))
        w = ef.min_volatility()
        return {"weights": w, "attr": ef.weights}

    def want(mu, S, lo, hi):
        p = Problem(mu, S, lo, hi)
        w = p.minimise(p.variance(), p.bounds() + [cp.sum(p.w) == 1])
        return {"weights": w, "attr": settled(p.w.value)}


class MinVolatilityNoReturns:
    prop = "C07"

    def code(S: "df|arr2"):
        ef = EfficientFrontier(None, S)
        return {"weights": ef.min_volatility()}

    def want(S):
        p = Problem(None, S, 0, 1)
        return {"weights": p.minimise(p.variance(), p.bounds() + [cp.sum(p.w) == 1])}


class MinVolatilityExtras:
    """Added objectives and added constraints take part in the solve, each exactly once."""
    prop = "C07"

    def code(mu: "ser", S: "df", f: "objfn", g: "objfn", c: "confn", d: "confn", gamma: "float"):
        ef = EfficientFrontier(mu, S)
        ef.add_objective(f)
        ef.add_objective(g, gamma=gamma)
        ef.add_constraint(c)
        ef.add_constraint(d)
        return {"weights": ef.min_volatility()}

    def want(mu, S, f, g, c, d, gamma):
        p = Problem(mu, S, 0, 1)
        obj = p.variance() + f(p.w) + g(p.w, gamma=gamma)
        return {"weights": p.minimise(obj, p.bounds() + [c(p.w), d(p.w), cp.sum(p.w) == 1])}


class SolverChoice:
    """The caller's solver, verbosity and options reach the solver."""
    prop = "C07"

    def code(mu: "ser", S: "df", solver: "str", verbose: "bool", eps: "float"):
        ef = EfficientFrontier(mu, S, solver=solver, verbose=verbose, solver_options={"eps": eps})
        return {"weights": ef.min_volatility()}

    def want(mu, S, solver, verbose, eps):
        p = Problem(mu, S)
        run(cp.Problem(cp.Minimize(p.variance()), p.bounds() + [cp.sum(p.w) == 1]), solver, verbose, {"eps": eps})
        return {"weights": p.answer()}


class BoundsPerAsset:
    """One (min, max) pair per asset; a missing limit is no limit."""
    prop = "C01"

    def code(mu: "ser", S: "df", b: "pairlist"):
        assume(len(b) == len(mu) or len(b) != 2)
        ef = EfficientFrontier(mu, S, weight_bounds=b)
        return {"weights": ef.min_volatility()}

    skip = ["weights"]

    def want(mu, S, b):
        assume(len(b) == len(mu) or len(b) != 2)
        p = Problem(mu, S)
        if len(b) != len(mu):
            raise TypeError("bounds")
        B = np.array(b, dtype=float)
        low = np.nan_to_num(B[:, 0], nan=-np.inf)
        high = np.nan_to_num(B[:, 1], nan=np.inf)
        return {"weights": p.minimise(p.variance(), [p.w >= low, p.w <= high, cp.sum(p.w) == 1])}


class BoundsPairUnlimited:
    """None in the common pair means -1 below and 1 above."""
    prop = "C01"
    definite = ["getitem", "slice"]
    skip = ["weights"]

    def code(mu: "ser", S: "df", lo: "float", hi: "float", which: ["lo", "hi", "both"]):
        b = (None, hi) if which == "lo" else (lo, None) if which == "hi" else (None, None)
        return {"weights": EfficientFrontier(mu, S, weight_bounds=b).min_volatility()}

    def want(mu, S, lo, hi, which):
        p = Problem(mu, S, lo if which == "hi" else -1, hi if which == "lo" else 1)
        return {"weights": p.minimise(p.variance(), p.bounds() + [cp.sum(p.w) == 1])}


class BoundsArrays:
    """A pair of per-asset arrays (with two assets a pair of pairs means one pair per asset)."""
    prop = "C01"
    skip = ["weights"]

    def code(mu: "ser", S: "df", low: "arr1", high: "arr1"):
        assume(len(mu) != 2)
        return {"weights": EfficientFrontier(mu, S, weight_bounds=(low, high)).min_volatility()}

    def want(mu, S, low, high):
        assume(len(mu) != 2)
        p = Problem(mu, S)
        return {"weights": p.minimise(p.variance(), [p.w >= np.nan_to_num(low, nan=-1), p.w <= np.nan_to_num(high, nan=1),
                                                     cp.sum(p.w) == 1])}


class MaxSharpe:
    prop = "C07"

    def code(mu: "ser|arr1", S: "df|arr2", lo: "float", hi: "float", rf: "float"):
        ef = EfficientFrontier(mu, S, (lo, hi))
        w = ef.max_sharpe(risk_free_rate=rf)
        return {"weights": w, "attr": ef.weights}

    def want(mu, S, lo, hi, rf):
        p = Problem(mu, S, lo, hi)
        if max(p.mu) <= rf:
            raise ValueError("no asset beats the risk-free rate")
        k = cp.Variable()
        n = p.n
        cons = [(p.mu - rf) @ p.w == 1, cp.sum(p.w) == k, k >= 0,
                p.w >= np.array([lo] * n) * k, p.w <= np.array([hi] * n) * k]
        run(cp.Problem(cp.Minimize(p.variance()), cons))
        w = settled(p.w.value / k.value)
        return {"weights": named(p.names, w), "attr": w}


class MaxSharpeConstraints:
    """Linear constraints are homogenised, additional objectives join once."""
    prop = "C07"

    def code(mu: "ser", S: "df", f: "objfn", h: "objfn", a: "arr1", b: "float", c: "float", e: "arr1", g: "float"):
        ef = EfficientFrontier(mu, S)
        ef.add_objective(f)
        ef.add_objective(h)
        ef.add_constraint(lambda w: w @ a <= b)
        ef.add_constraint(lambda w: w[0] >= c)
        ef.add_constraint(lambda w: w @ e == g)
        return {"weights": ef.max_sharpe()}

    def want(mu, S, f, h, a, b, c, e, g):
        p = Problem(mu, S)
        if max(p.mu) <= 0:
            raise ValueError("no asset beats the risk-free rate")
        warnings.warn("objectives are transformed")
        k = cp.Variable()
        n = p.n
        cons = [p.mu @ p.w == 1, cp.sum(p.w) == k, k >= 0, p.w >= np.array([0] * n) * k, p.w <= np.array([1] * n) * k,
                p.w @ a <= b * k, p.w[0] >= c * k, p.w @ e == g * k]
        run(cp.Problem(cp.Minimize(p.variance() + f(p.w) + h(p.w)), cons))
        return {"weights": named(p.names, settled(p.w.value / k.value))}


class MaxSharpeBothSides:
    """A linear constraint with variable and constant parts on the same side."""
    prop = "C07"
    skip = ["weights"]

    def code(mu: "ser", S: "df", a: "arr1", b: "float", c: "float"):
        ef = EfficientFrontier(mu, S)
        ef.add_constraint(lambda w: w @ a + c <= b)
        return {"weights": ef.max_sharpe()}

    def want(mu, S, a, b, c):
        p = Problem(mu, S)
        if max(p.mu) <= 0:
            raise ValueError("no asset beats the risk-free rate")
        k = cp.Variable()
        n = p.n
        cons = [p.mu @ p.w == 1, cp.sum(p.w) == k, k >= 0, p.w >= np.array([0] * n) * k, p.w <= np.array([1] * n) * k,
                p.w @ a + c * k <= b * k]
        run(cp.Problem(cp.Minimize(p.variance()), cons))
        return {"weights": named(p.names, settled(p.w.value / k.value))}

    def known(mu, S, a, b, c):
        p = Problem(mu, S)
        if max(p.mu) <= 0:
            raise ValueError("no asset beats the risk-free rate")
        k = cp.Variable()
        n = p.n
        cons = [p.mu @ p.w == 1, cp.sum(p.w) == k, k >= 0, p.w >= np.array([0] * n) * k, p.w <= np.array([1] * n) * k,
                p.w @ a + c <= b * k]
        run(cp.Problem(cp.Minimize(p.variance()), cons))
        return {"weights": named(p.names, settled(p.w.value / k.value))}


def market_sum(p, neutral, report=True):
    """Bounds and budget of market-neutral and fully invested portfolios."""
    if not neutral:
        return p.bounds() + [cp.sum(p.w) == 1]
    if not np.any(np.array([p.lo] * p.n) < 0):
        if report:
            warnings.warn("bounds amended", RuntimeWarning)
        return [p.w >= np.array([-1] * p.n), p.w <= np.array([1] * p.n), cp.sum(p.w) == 0]
    return p.bounds() + [cp.sum(p.w) == 0]


class MaxQuadraticUtility:
    prop = "C07"

    def code(mu: "ser|arr1", S: "df|arr2", lo: "float", hi: "float", ra: "float", neutral: [True, False]):
        ef = EfficientFrontier(mu, S, (lo, hi))
        return {"weights": ef.max_quadratic_utility(risk_aversion=ra, market_neutral=neutral)}

    def want(mu, S, lo, hi, ra, neutral):
        p = Problem(mu, S, lo, hi)
        if ra <= 0:
            raise ValueError("risk aversion")
        return {"weights": p.minimise(0.5 * ra * p.variance() - p.ret(), market_sum(p, neutral))}


class MaxQuadraticUtilityExtras:
    prop = "C07"

    def code(mu: "ser", S: "df", f: "objfn", g: "objfn", c: "confn", d: "confn"):
        ef = EfficientFrontier(mu, S)
        ef.add_objective(f)
        ef.add_objective(g)
        ef.add_constraint(c)
        ef.add_constraint(d)
        return {"weights": ef.max_quadratic_utility()}

    def want(mu, S, f, g, c, d):
        p = Problem(mu, S)
        obj = 0.5 * p.variance() - p.ret() + f(p.w) + g(p.w)
        return {"weights": p.minimise(obj, p.bounds() + [c(p.w), d(p.w), cp.sum(p.w) == 1])}


def check_risk_target(p, t, neutral=False):
    """No fully invested portfolio has less than the global minimum volatility; a market-neutral one can."""
    if t < 0:
        raise ValueError("target")
    if not neutral and t < np.sqrt(1 / np.sum(np.linalg.pinv(p.S))):
        raise ValueError("below the minimum volatility")


class EfficientRisk:
    prop = "C07"

    def code(mu: "ser|arr1", S: "df|arr2", lo: "float", hi: "float", t: "float", neutral: [True, False]):
        ef = EfficientFrontier(mu, S, (lo, hi))
        return {"weights": ef.efficient_risk(t, market_neutral=neutral)}

    def want(mu, S, lo, hi, t, neutral):
        p = Problem(mu, S, lo, hi)
        check_risk_target(p, t, neutral)
        return {"weights": p.minimise(-p.ret(), market_sum(p, neutral) + [p.variance() <= t ** 2])}


class EfficientRiskExtras:
    prop = "C07"

    def code(mu: "ser", S: "df", f: "objfn", g: "objfn", c: "confn", d: "confn", t: "float"):
        ef = EfficientFrontier(mu, S)
        ef.add_objective(f)
        ef.add_objective(g)
        ef.add_constraint(c)
        ef.add_constraint(d)
        return {"weights": ef.efficient_risk(t)}

    def want(mu, S, f, g, c, d, t):
        p = Problem(mu, S)
        check_risk_target(p, t)
        cons = p.bounds() + [c(p.w), d(p.w), cp.sum(p.w) == 1, p.variance() <= t ** 2]
        return {"weights": p.minimise(-p.ret() + f(p.w) + g(p.w), cons)}


def run_best(p, cons):
    prob = cp.Problem(cp.Minimize(-p.ret()), cons)
    run(prob)
    return -prob.value


def best_return(p, extra=[], neutral=False):
    """The highest return any portfolio of the kind asked for can have within the constraints."""
    return run_best(p, market_sum(p, neutral, report=False) + extra)


class EfficientReturn:
    prop = "C07"

    def code(mu: "ser|arr1", S: "df|arr2", lo: "float", hi: "float", t: "float", neutral: [True, False]):
        ef = EfficientFrontier(mu, S, (lo, hi))
        return {"weights": ef.efficient_return(t, market_neutral=neutral)}

    def want(mu, S, lo, hi, t, neutral):
        p = Problem(mu, S, lo, hi)
        if t > best_return(p, [], neutral):
            raise ValueError("target")
        return {"weights": p.minimise(p.variance(), market_sum(p, neutral) + [p.ret() >= t])}


class EfficientReturnExtras:
    prop = "C07"

    def code(mu: "ser", S: "df", f: "objfn", g: "objfn", c: "confn", d: "confn", t: "float"):
        ef = EfficientFrontier(mu, S)
        ef.add_objective(f)
        ef.add_objective(g)
        ef.add_constraint(c)
        ef.add_constraint(d)
        return {"weights": ef.efficient_return(t)}

    def want(mu, S, f, g, c, d, t):
        p = Problem(mu, S)
        if t > best_return(p, [c(p.w), d(p.w)]):
            raise ValueError("target")
        cons = p.bounds() + [c(p.w), d(p.w), cp.sum(p.w) == 1, p.ret() >= t]
        return {"weights": p.minimise(p.variance() + f(p.w) + g(p.w), cons)}
