"""Sequences of operations on one optimiser instance: C04 lifecycle, C05 changing the target."""
import cvxpy as cp
import numpy as np
import pandas as pd
from pypfopt import EfficientFrontier, exceptions
from spec.common import assume
from spec.efficient_frontier import best_return, check_risk_target, market_sum
from spec.portfolio import Problem, named, run, settled


class RiskTwice:
    """A second target gives what a fresh instance would give for it."""
    prop = "C05"
    map = "again"

    def code(mu: "ser", S: "df", f: "objfn", g: "objfn", c: "confn", d: "confn", t: "float", u: "float", neutral: [True, False]):
        ef = EfficientFrontier(mu, S, (-1, 1))
        ef.add_objective(f)
        ef.add_objective(g)
        ef.add_constraint(c)
        ef.add_constraint(d)
        a = ef.efficient_risk(t, neutral)
        b = ef.efficient_risk(u, neutral)
        return {"first": a, "second": b, "attr": ef.weights}

    def want(mu, S, f, g, c, d, t, u, neutral):
        p = Problem(mu, S, -1, 1)
        check_risk_target(p, t, neutral)
        a = p.minimise(-p.ret() + f(p.w) + g(p.w), market_sum(p, neutral) + [c(p.w), d(p.w), p.variance() <= t ** 2])
        check_risk_target(p, u, neutral)
        b = p.minimise(-p.ret() + f(p.w) + g(p.w), market_sum(p, neutral) + [c(p.w), d(p.w), p.variance() <= u ** 2])
        return {"first": a, "second": b, "attr": settled(p.w.value)}


class ReturnTwice:
    prop = "C05"
    map = "again"

    def code(mu: "ser", S: "df", f: "objfn", g: "objfn", c: "confn", d: "confn", t: "float", u: "float"):
        ef = EfficientFrontier(mu, S)
        ef.add_objective(f)
        ef.add_objective(g)
        ef.add_constraint(c)
        ef.add_constraint(d)
        a = ef.efficient_return(t)
        b = ef.efficient_return(u)
        return {"first": a, "second": b, "attr": ef.weights}

    def want(mu, S, f, g, c, d, t, u):
        p = Problem(mu, S)
        top = best_return(p, [c(p.w), d(p.w)])
        if t > top:
            raise ValueError("target")
        cons = p.bounds() + [c(p.w), d(p.w), cp.sum(p.w) == 1]
        a = p.minimise(p.variance() + f(p.w) + g(p.w), cons + [p.ret() >= t])
        if u > top:
            raise ValueError("target")
        b = p.minimise(p.variance() + f(p.w) + g(p.w), cons + [p.ret() >= u])
        return {"first": a, "second": b, "attr": settled(p.w.value)}


class UtilityTwice:
    prop = "C05"
    map = "again"

    def code(mu: "ser", S: "df", f: "objfn", g: "objfn", c: "confn", d: "confn", t: "float", u: "float", neutral: [True, False]):
        ef = EfficientFrontier(mu, S, (-1, 1))
        ef.add_objective(f)
        ef.add_objective(g)
        ef.add_constraint(c)
        ef.add_constraint(d)
        a = ef.max_quadratic_utility(t, neutral)
        b = ef.max_quadratic_utility(u, neutral)
        return {"first": a, "second": b, "attr": ef.weights}

    def want(mu, S, f, g, c, d, t, u, neutral):
        p = Problem(mu, S, -1, 1)
        if t <= 0:
            raise ValueError("risk aversion")
        a = p.minimise(0.5 * t * p.variance() - p.ret() + f(p.w) + g(p.w), market_sum(p, neutral) + [c(p.w), d(p.w)])
        if u <= 0:
            raise ValueError("risk aversion")
        b = p.minimise(0.5 * u * p.variance() - p.ret() + f(p.w) + g(p.w), market_sum(p, neutral) + [c(p.w), d(p.w)])
        return {"first": a, "second": b, "attr": settled(p.w.value)}


class AddAfterSolve:
    """Once solved, objectives and constraints cannot be added any more."""
    prop = "C04"

    def code(mu: "ser", S: "df", f: "objfn", c: "confn", first: ["min_volatility", "max_sharpe", "max_quadratic_utility", "efficient_risk", "efficient_return"],
             what: ["objective", "constraint", "sector"], m: "dict", low: "numdict", up: "numdict", t: "float"):
        ef = EfficientFrontier(mu, S)
        if first == "min_volatility":
            ef.min_volatility()
        elif first == "max_sharpe":
            ef.max_sharpe()
        elif first == "efficient_risk":
            ef.efficient_risk(t)
        elif first == "efficient_return":
            ef.efficient_return(t)
        else:
            ef.max_quadratic_utility()
        assume(len(low) > 0)
        if what == "objective":
            ef.add_objective(f)
        elif what == "constraint":
            ef.add_constraint(c)
        else:
            ef.add_sector_constraints(m, low, {})
        return {"value": 1}

    skip = ["warnings"]

    def want(mu, S, f, c, first, what, m, low, up, t):
        ef = EfficientFrontier(mu, S)
        if first == "min_volatility":
            ef.min_volatility()
        elif first == "max_sharpe":
            ef.max_sharpe()
        elif first == "efficient_risk":
            ef.efficient_risk(t)
        elif first == "efficient_return":
            ef.efficient_return(t)
        else:
            ef.max_quadratic_utility()
        assume(len(low) > 0)
        raise exceptions.InstantiationError("already solved")


class OtherMethodAfterSolve:
    """A solved instance refuses a different objective instead of solving a mixture, and refuses to repeat one that takes no target."""
    prop = "C04"
    skip = ["weights"]

    def code(mu: "ser", S: "df", first: ["min_volatility", "max_sharpe", "max_quadratic_utility", "efficient_risk", "efficient_return"],
             then: ["min_volatility", "max_sharpe", "max_quadratic_utility", "efficient_risk", "efficient_return"],
             t: "float", u: "float"):
        assume(first != then or first in ("min_volatility", "max_sharpe"))
        ef = EfficientFrontier(mu, S)
        solve(ef, first, t)
        solve(ef, then, u)
        return {"weights": 1}

    def want(mu, S, first, then, t, u):
        assume(first != then or first in ("min_volatility", "max_sharpe"))
        p = Problem(mu, S)
        solve(EfficientFrontier(mu, S), first, t)
        if then == "max_sharpe" and max(p.mu) <= 0:
            raise ValueError("no asset beats the risk-free rate")
        if then == "efficient_risk":
            check_risk_target(p, u)
        raise exceptions.InstantiationError("already solved")


def solve(ef, method, t):
    if method == "min_volatility":
        ef.min_volatility()
    elif method == "max_sharpe":
        ef.max_sharpe()
    elif method == "max_quadratic_utility":
        ef.max_quadratic_utility()
    elif method == "efficient_risk":
        ef.efficient_risk(t)
    else:
        ef.efficient_return(t)


class NeutralitySwitch:
    """Market neutrality cannot change between solves of one instance."""
    prop = "C04"
    skip = ["weights"]

    def code(mu: "ser", S: "df", t: "float", u: "float", a: [True, False], b: [True, False],
             method: ["risk", "return", "utility"]):
        ef = EfficientFrontier(mu, S, (-1, 1))
        assume(a != b)
        if method == "risk":
            ef.efficient_risk(t, a)
            ef.efficient_risk(u, b)
        elif method == "return":
            ef.efficient_return(t, a)
            ef.efficient_return(u, b)
        else:
            ef.max_quadratic_utility(t, a)
            ef.max_quadratic_utility(u, b)
        return {"weights": 1}

    def want(mu, S, t, u, a, b, method):
        p = Problem(mu, S, -1, 1)
        assume(a != b)
        if method == "risk":
            check_risk_target(p, t, a)
            p.minimise(-p.ret(), market_sum(p, a) + [p.variance() <= t ** 2])
            check_risk_target(p, u, b)
        elif method == "return":
            top = best_return(p, [], a)
            if t > top:
                raise ValueError("target")
            p.minimise(p.variance(), market_sum(p, a) + [p.ret() >= t])
            if u > top:
                raise ValueError("target")
        else:
            if t <= 0:
                raise ValueError("risk aversion")
            p.minimise(0.5 * t * p.variance() - p.ret(), market_sum(p, a))
            if u <= 0:
                raise ValueError("risk aversion")
        raise exceptions.InstantiationError("market neutrality")


class NoWeightsOnFailure:
    """A failed solve raises and leaves no new weights behind."""
    prop = "C03"

    def code(mu: "ser", S: "df", c: "confn", how: ["min_volatility", "max_sharpe", "max_quadratic_utility", "efficient_risk",
                                                  "efficient_return"], t: "float"):
        ef = EfficientFrontier(mu, S)
        ef.add_constraint(c)
        failed = False
        try:
            if how == "min_volatility":
                ef.min_volatility()
            elif how == "max_sharpe":
                assume(False)
            elif how == "max_quadratic_utility":
                ef.max_quadratic_utility()
            elif how == "efficient_risk":
                ef.efficient_risk(t)
            else:
                ef.efficient_return(t)
        except exceptions.OptimizationError:
            failed = True
        return {"failed": failed, "weights": ef.weights}

    def want(mu, S, c, how, t):
        p = Problem(mu, S)
        failed = False
        w = None
        cons = p.bounds() + [c(p.w), cp.sum(p.w) == 1]
        try:
            if how == "min_volatility":
                p.minimise(p.variance(), cons)
            elif how == "max_sharpe":
                assume(False)
            elif how == "max_quadratic_utility":
                p.minimise(0.5 * p.variance() - p.ret(), cons)
            elif how == "efficient_risk":
                check_risk_target(p, t)
                p.minimise(-p.ret(), cons + [p.variance() <= t ** 2])
            else:
                if t > best_return(p, [c(p.w)]):
                    raise ValueError("target")
                p.minimise(p.variance(), cons + [p.ret() >= t])
            w = settled(p.w.value)
        except exceptions.OptimizationError:
            failed = True
        return {"failed": failed, "weights": w}
