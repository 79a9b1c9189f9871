"""Longer histories, on every optimiser class: retry after a failure, refused misuse, solver settings, per-asset bounds."""
import warnings

import cvxpy as cp
import numpy as np
import pandas as pd
from pypfopt import EfficientCDaR, EfficientCVaR, EfficientFrontier, EfficientSemivariance, exceptions
from spec.common import assume
from spec.efficient_frontier import best_return, check_risk_target, market_sum, run_best
from spec.portfolio import Problem, named, run, settled
from spec.tail_risk import CDaR, CVaR, Semi


def scenario_optimiser(which, mu, R, lo, hi):
    if which == "semi":
        return EfficientSemivariance(mu, R, weight_bounds=(lo, hi))
    if which == "cvar":
        return EfficientCVaR(mu, R, weight_bounds=(lo, hi))
    return EfficientCDaR(mu, R, weight_bounds=(lo, hi))


def scenario_problem(which, mu, R, lo, hi):
    """The problem, its risk measure and the constraints that define the measure."""
    if which == "semi":
        p = Semi(mu, R, lo, hi)
        risk, cons = p.risk(0)
        return p, risk, cons
    p = CVaR(mu, R, lo, hi) if which == "cvar" else CDaR(mu, R, lo, hi)
    return p, p.risk, p.tail


def scenario_target(which, how, p, t, extra=[], neutral=False):
    if which == "semi" and how == "return":
        p.reachable(t, neutral, extra)
    elif which == "cdar" or which == "cvar" and how == "risk":
        if t < 0:
            raise ValueError("target")


def scenario_pair(which, how, p, risk, t):
    """Objective and target constraint of efficient_return / efficient_risk."""
    if how == "return":
        return risk, p.ret() >= t
    if which == "semi":
        return -p.ret(), 252 * risk <= t ** 2
    return -p.ret(), risk <= t


class RetryAfterFailure:
    """A failed solve leaves no trace: the next target is solved as on a fresh instance."""
    prop = "C05"
    map = "again"

    def code(mu: "ser", S: "df", f: "objfn", c: "confn", t: "float", u: "float", how: ["risk", "return", "utility"]):
        ef = EfficientFrontier(mu, S)
        ef.add_objective(f)
        ef.add_constraint(c)
        try:
            if how == "risk":
                ef.efficient_risk(t)
            elif how == "return":
                ef.efficient_return(t)
            else:
                ef.max_quadratic_utility(t)
        except exceptions.OptimizationError:
            pass
        if how == "risk":
            w = ef.efficient_risk(u)
        elif how == "return":
            w = ef.efficient_return(u)
        else:
            w = ef.max_quadratic_utility(u)
        return {"second": w, "attr": ef.weights}

    def want(mu, S, f, c, t, u, how):
        p = Problem(mu, S)
        try:
            attempt(p, f, c, how, t)
        except exceptions.OptimizationError:
            pass
        return {"second": attempt(p, f, c, how, u), "attr": settled(p.w.value)}


def attempt(p, f, c, how, x):
    cons = market_sum(p, False) + [c(p.w)]
    if how == "risk":
        check_risk_target(p, x)
        return p.minimise(-p.ret() + f(p.w), cons + [p.variance() <= x ** 2])
    if how == "return":
        if x > best_return(p, [c(p.w)]):
            raise ValueError("target")
        return p.minimise(p.variance() + f(p.w), cons + [p.ret() >= x])
    if x <= 0:
        raise ValueError("risk aversion")
    return p.minimise(0.5 * x * p.variance() - p.ret() + f(p.w), cons)


class ScenarioRetry:
    prop = "C05"
    map = "again"

    def code(which: ["semi", "cvar", "cdar"], how: ["return", "risk"], mu: "ser", R: "df", f: "objfn", c: "confn", t: "float", u: "float"):
        e = scenario_optimiser(which, mu, R, -1, 1)
        e.add_objective(f)
        e.add_constraint(c)
        try:
            if how == "return":
                e.efficient_return(t)
            else:
                e.efficient_risk(t)
        except exceptions.OptimizationError:
            pass
        w = e.efficient_return(u) if how == "return" else e.efficient_risk(u)
        return {"second": w, "attr": e.weights}

    def want(which, how, mu, R, f, c, t, u):
        p, risk, cons = scenario_problem(which, mu, R, -1, 1)
        obj, lim = scenario_pair(which, how, p, risk, t)
        try:
            scenario_target(which, how, p, t, [c(p.w)])
            p.minimise(obj + f(p.w), p.limits() + cons + [c(p.w), lim])
        except exceptions.OptimizationError:
            pass
        scenario_target(which, how, p, u, [c(p.w)])
        obj, lim = scenario_pair(which, how, p, risk, u)
        return {"second": p.minimise(obj + f(p.w), p.limits() + cons + [c(p.w), lim]), "attr": settled(p.w.value)}


class ScenarioAddAfterSolve:
    """Once solved, objectives and constraints cannot be added to any optimiser."""
    prop = "C04"
    skip = ["warnings"]

    def code(which: ["semi", "cvar", "cdar"], first: ["min", "return", "risk"], what: ["objective", "constraint"], mu: "ser", R: "df",
             f: "objfn", c: "confn", t: "float"):
        e = scenario_optimiser(which, mu, R, 0, 1)
        solve_first(e, which, first, t)
        if what == "objective":
            e.add_objective(f)
        else:
            e.add_constraint(c)
        return {"value": 1}

    def want(which, first, what, mu, R, f, c, t):
        e = scenario_optimiser(which, mu, R, 0, 1)
        solve_first(e, which, first, t)
        raise exceptions.InstantiationError("already solved")


def solve_first(e, which, first, t):
    if first == "return":
        e.efficient_return(t)
    elif first == "risk":
        e.efficient_risk(t)
    elif which == "semi":
        e.min_semivariance()
    elif which == "cvar":
        e.min_cvar()
    else:
        e.min_cdar()


class ScenarioOtherMethod:
    """A solved scenario optimiser refuses a different objective, and refuses to repeat one that takes no target."""
    prop = "C04"
    skip = ["weights", "warnings"]

    def code(which: ["semi", "cvar", "cdar"], first: ["min", "return", "risk"], then: ["min", "return", "risk"], mu: "ser", R: "df",
             t: "float", u: "float"):
        assume(first != then or first == "min")
        e = scenario_optimiser(which, mu, R, 0, 1)
        solve_first(e, which, first, t)
        solve_first(e, which, then, u)
        return {"weights": 1}

    def want(which, first, then, mu, R, t, u):
        assume(first != then or first == "min")
        p, risk, cons = scenario_problem(which, mu, R, 0, 1)
        if first == "min":
            p.minimise(risk, p.limits() + cons)
        else:
            scenario_target(which, first, p, t)
            obj, lim = scenario_pair(which, first, p, risk, t)
            p.minimise(obj, p.limits() + cons + [lim])
        if then == "return" and which != "cvar" or then == "risk" and which != "semi":
            if u < 0:
                raise ValueError("target")
        raise exceptions.InstantiationError("already solved")


class ScenarioNeutralitySwitch:
    prop = "C04"
    skip = ["weights", "warnings"]  # an invalid second target may be refused for either reason

    def code(which: ["semi", "cvar", "cdar"], how: ["return", "risk"], a: [True, False], mu: "ser", R: "df", t: "float", u: "float"):
        assume(u >= 0)
        e = scenario_optimiser(which, mu, R, -1, 1)
        if how == "return":
            e.efficient_return(t, a)
            e.efficient_return(u, not a)
        else:
            e.efficient_risk(t, a)
            e.efficient_risk(u, not a)
        return {"weights": 1}

    def want(which, how, a, mu, R, t, u):
        assume(u >= 0)
        p, risk, cons = scenario_problem(which, mu, R, -1, 1)
        scenario_target(which, how, p, t, [], a)
        obj, lim = scenario_pair(which, how, p, risk, t)
        p.minimise(obj, p.limits(a) + cons + [lim])
        if which == "semi":
            scenario_target(which, how, p, u, [], a)
        raise exceptions.InstantiationError("market neutrality")


class ScenarioNoWeightsOnFailure:
    prop = "C03"
    skip = ["warnings"]

    def code(which: ["semi", "cvar", "cdar"], how: ["min", "return", "risk"], mu: "ser", R: "df", t: "float"):
        e = scenario_optimiser(which, mu, R, 0, 1)
        failed = False
        try:
            solve_first(e, which, how, t)
        except exceptions.OptimizationError:
            failed = True
        return {"failed": failed, "weights": e.weights}

    def want(which, how, mu, R, t):
        p, risk, cons = scenario_problem(which, mu, R, 0, 1)
        w = None
        failed = False
        try:
            if how == "min":
                p.minimise(risk, p.limits() + cons)
            else:
                scenario_target(which, how, p, t)
                obj, lim = scenario_pair(which, how, p, risk, t)
                p.minimise(obj, p.limits() + cons + [lim])
            w = settled(p.w.value)
        except exceptions.OptimizationError:
            failed = True
        return {"failed": failed, "weights": w}


class KeepsWeightsOnFailedRepeat:
    """When a repeated solve fails the earlier weights stay and the failure is raised."""
    prop = "C03"

    def code(mu: "ser", S: "df", t: "float", u: "float", how: ["risk", "utility"]):
        ef = EfficientFrontier(mu, S)
        failed = False
        if how == "risk":
            ef.efficient_risk(t)
        else:
            ef.max_quadratic_utility(t)
        try:
            if how == "risk":
                ef.efficient_risk(u)
            else:
                ef.max_quadratic_utility(u)
        except exceptions.OptimizationError:
            failed = True
        return {"failed": failed, "weights": ef.weights}

    def want(mu, S, t, u, how):
        p = Problem(mu, S)
        failed = False
        if how == "risk":
            check_risk_target(p, t)
            p.minimise(-p.ret(), market_sum(p, False) + [p.variance() <= t ** 2])
        elif t <= 0:
            raise ValueError("risk aversion")
        else:
            p.minimise(0.5 * t * p.variance() - p.ret(), market_sum(p, False))
        w = settled(p.w.value)
        try:
            if how == "risk":
                check_risk_target(p, u)
                p.minimise(-p.ret(), market_sum(p, False) + [p.variance() <= u ** 2])
            elif u <= 0:
                raise ValueError("risk aversion")
            else:
                p.minimise(0.5 * u * p.variance() - p.ret(), market_sum(p, False))
            w = settled(p.w.value)
        except exceptions.OptimizationError:
            failed = True
        return {"failed": failed, "weights": w}


class ScenarioSolverChoice:
    """Solver, verbosity and options given to the scenario optimisers reach the solver."""
    prop = "C02"
    skip = ["weights", "warnings"]

    def code(which: ["semi", "cvar", "cdar"], mu: "ser", R: "df", solver: "str", verbose: "bool", eps: "float"):
        if which == "semi":
            e = EfficientSemivariance(mu, R, verbose=verbose, solver=solver, solver_options={"eps": eps})
            return {"weights": e.min_semivariance()}
        if which == "cvar":
            return {"weights": EfficientCVaR(mu, R, verbose=verbose, solver=solver, solver_options={"eps": eps}).min_cvar()}
        return {"weights": EfficientCDaR(mu, R, verbose=verbose, solver=solver, solver_options={"eps": eps}).min_cdar()}

    def want(which, mu, R, solver, verbose, eps):
        p, risk, cons = scenario_problem(which, mu, R, 0, 1)
        run(cp.Problem(cp.Minimize(risk), p.limits() + cons), solver, verbose, {"eps": eps})
        return {"weights": 1}


class ScenarioBoundsPerAsset:
    """Per-asset bounds reach the problem of every scenario optimiser."""
    prop = "C01"
    skip = ["weights", "warnings"]

    def code(which: ["semi", "cvar", "cdar"], mu: "ser", R: "df", b: "pairlist"):
        assume(len(b) == len(mu))
        if which == "semi":
            return {"weights": EfficientSemivariance(mu, R, weight_bounds=b).min_semivariance()}
        if which == "cvar":
            return {"weights": EfficientCVaR(mu, R, weight_bounds=b).min_cvar()}
        return {"weights": EfficientCDaR(mu, R, weight_bounds=b).min_cdar()}

    def want(which, mu, R, b):
        assume(len(b) == len(mu))
        p, risk, cons = scenario_problem(which, mu, R, 0, 1)
        B = np.array(b, dtype=float)
        low = np.nan_to_num(B[:, 0], nan=-np.inf)
        high = np.nan_to_num(B[:, 1], nan=np.inf)
        p.minimise(risk, [p.w >= low, p.w <= high, cp.sum(p.w) == 1] + cons)
        return {"weights": 1}


class NeutralPerAsset:
    """Market neutrality keeps per-asset bounds that let some asset be short, and amends them only when none can."""
    prop = "C01"
    skip = ["weights"]

    def code(mu: "ser", S: "df", b: "pairlist", how: ["risk", "return", "utility"], t: "float"):
        assume(len(b) == len(mu))
        ef = EfficientFrontier(mu, S, weight_bounds=b)
        if how == "risk":
            ef.efficient_risk(t, market_neutral=True)
        elif how == "return":
            ef.efficient_return(t, market_neutral=True)
        else:
            ef.max_quadratic_utility(t, market_neutral=True)
        return {"weights": 1}

    def want(mu, S, b, how, t):
        assume(len(b) == len(mu))
        p = Problem(mu, S)
        B = np.array(b, dtype=float)
        low = np.nan_to_num(B[:, 0], nan=-np.inf)
        high = np.nan_to_num(B[:, 1], nan=np.inf)
        cons = [p.w >= low, p.w <= high, cp.sum(p.w) == 0]
        amended = not np.any(low < 0)
        if amended:
            cons = [p.w >= np.array([-1] * p.n), p.w <= np.array([1] * p.n), cp.sum(p.w) == 0]
        if how == "risk":
            check_risk_target(p, t, True)
        elif how == "return":
            if t > run_best(p, cons):
                raise ValueError("target")
        elif t <= 0:
            raise ValueError("risk aversion")
        if amended:
            warnings.warn("bounds amended", RuntimeWarning)
        if how == "risk":
            p.minimise(-p.ret(), cons + [p.variance() <= t ** 2])
        elif how == "return":
            p.minimise(p.variance(), cons + [p.ret() >= t])
        else:
            p.minimise(0.5 * t * p.variance() - p.ret(), cons)
        return {"weights": 1}
