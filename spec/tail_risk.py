"""Semivariance, CVaR and CDaR optimisation."""
import warnings

import cvxpy as cp
import numpy as np
import pandas as pd
from pypfopt import EfficientCDaR, EfficientCVaR, EfficientSemivariance, exceptions
from spec.common import assume
from spec.portfolio import mean_vector, named, run, settled


class Scenarios:
    """Assets, decision vector, bounds and the cleaned return scenarios."""

    def __init__(self, mu, returns, lo=0, hi=1):
        self.mu = mean_vector(mu)
        self.n = returns.shape[1] if mu is None else len(mu)
        if mu is not None and returns.shape[1] != len(mu):
            raise ValueError("dimensions")
        self.names = list(mu.index) if isinstance(mu, pd.Series) else list(range(self.n))
        r = pd.DataFrame(returns)
        if r.isnull().values.any():
            warnings.warn("nan", UserWarning)
            r = r.dropna(axis=0, how="any")
        self.R = r
        self.T = len(r)
        self.w = cp.Variable(self.n)
        self.lo = lo
        self.hi = hi

    def ret(self):
        return self.w @ self.mu

    def reachable(self, t, neutral=False, extra=[]):
        """A target return above that of every allowed portfolio is refused."""
        if t < 0:
            raise ValueError("target")
        prob = cp.Problem(cp.Minimize(-self.ret()), self.limits(neutral, False) + extra)
        run(prob)
        if t > -prob.value:
            raise ValueError("target")

    def limits(self, neutral=False, report=True):
        """Bounds and budget of market-neutral and fully invested portfolios."""
        lo = np.array([self.lo] * self.n)
        hi = np.array([self.hi] * self.n)
        if not neutral:
            return [self.w >= lo, self.w <= hi, cp.sum(self.w) == 1]
        if not np.any(lo < 0):
            if report:
                warnings.warn("bounds amended", RuntimeWarning)
            return [self.w >= np.array([-1] * self.n), self.w <= np.array([1] * self.n), cp.sum(self.w) == 0]
        return [self.w >= lo, self.w <= hi, cp.sum(self.w) == 0]

    def minimise(self, obj, cons):
        run(cp.Problem(cp.Minimize(obj), cons))
        return named(self.names, settled(self.w.value))


class Semi(Scenarios):
    def risk(self, benchmark):
        """Semivariance: squared shortfalls below the benchmark, and the constraints defining them."""
        up = cp.Variable(self.T, nonneg=True)
        down = cp.Variable(self.T, nonneg=True)
        excess = (self.R.values - benchmark) / np.sqrt(self.T)
        return cp.sum(cp.square(down)), [excess @ self.w - up + down == 0]


class MinSemivariance:
    prop = "C07"

    def code(mu: "ser|arr1", R: "df|arr2", lo: "float", hi: "float", b: "float", freq: "int", neutral: [True, False],
             f: "objfn", g: "objfn", c: "confn", d: "confn"):
        es = EfficientSemivariance(mu, R, frequency=freq, benchmark=b, weight_bounds=(lo, hi))
        es.add_objective(f)
        es.add_objective(g)
        es.add_constraint(c)
        es.add_constraint(d)
        return {"weights": es.min_semivariance(neutral), "attr": es.weights}

    def want(mu, R, lo, hi, b, freq, neutral, f, g, c, d):
        p = Semi(mu, R, lo, hi)
        risk, cons = p.risk(b)
        w = p.minimise(risk + f(p.w) + g(p.w), p.limits(neutral) + cons + [c(p.w), d(p.w)])
        return {"weights": w, "attr": settled(p.w.value)}


class SemiUtility:
    prop = "C07"
    map = "again"

    def code(mu: "ser", R: "df", b: "float", freq: "int", neutral: [True, False], ra: "float", rb: "float", f: "objfn", g: "objfn", c: "confn", d: "confn"):
        es = EfficientSemivariance(mu, R, freq, b, (-1, 1))
        es.add_objective(f)
        es.add_objective(g)
        es.add_constraint(c)
        es.add_constraint(d)
        first = es.max_quadratic_utility(ra, neutral)
        return {"first": first, "second": es.max_quadratic_utility(rb, neutral)}

    def want(mu, R, b, freq, neutral, ra, rb, f, g, c, d):
        p = Semi(mu, R, -1, 1)
        if ra <= 0:
            raise ValueError("risk aversion")
        risk, cons = p.risk(b)
        cons = p.limits(neutral) + cons + [c(p.w), d(p.w)]
        first = p.minimise(0.5 * ra * risk - p.ret() / freq + f(p.w) + g(p.w), cons)
        if rb <= 0:
            raise ValueError("risk aversion")
        return {"first": first, "second": p.minimise(0.5 * rb * risk - p.ret() / freq + f(p.w) + g(p.w), cons)}


class SemiRisk:
    prop = "C07"
    map = "again"

    def code(mu: "ser", R: "df", b: "float", freq: "int", neutral: [True, False], t: "float", u: "float", f: "objfn", g: "objfn", c: "confn", d: "confn"):
        es = EfficientSemivariance(mu, R, freq, b, (-1, 1))
        es.add_objective(f)
        es.add_objective(g)
        es.add_constraint(c)
        es.add_constraint(d)
        first = es.efficient_risk(t, neutral)
        return {"first": first, "second": es.efficient_risk(u, neutral)}

    def want(mu, R, b, freq, neutral, t, u, f, g, c, d):
        p = Semi(mu, R, -1, 1)
        risk, cons = p.risk(b)
        cons = p.limits(neutral) + cons + [c(p.w), d(p.w)]
        first = p.minimise(-p.ret() + f(p.w) + g(p.w), cons + [freq * risk <= t ** 2])
        return {"first": first, "second": p.minimise(-p.ret() + f(p.w) + g(p.w), cons + [freq * risk <= u ** 2])}


class SemiReturn:
    prop = "C07"
    map = "again"

    def code(mu: "ser", R: "df", b: "float", neutral: [True, False], t: "float", u: "float", f: "objfn", g: "objfn", c: "confn", d: "confn"):
        es = EfficientSemivariance(mu, R, benchmark=b, weight_bounds=(-1, 1))
        es.add_objective(f)
        es.add_objective(g)
        es.add_constraint(c)
        es.add_constraint(d)
        first = es.efficient_return(t, neutral)
        return {"first": first, "second": es.efficient_return(u, neutral)}

    def want(mu, R, b, neutral, t, u, f, g, c, d):
        p = Semi(mu, R, -1, 1)
        p.reachable(t, neutral, [c(p.w), d(p.w)])
        risk, cons = p.risk(b)
        cons = p.limits(neutral) + cons + [c(p.w), d(p.w)]
        first = p.minimise(risk + f(p.w) + g(p.w), cons + [p.ret() >= t])
        p.reachable(u, neutral, [c(p.w), d(p.w)])
        return {"first": first, "second": p.minimise(risk + f(p.w) + g(p.w), cons + [p.ret() >= u])}


class SemiPerformance:
    prop = "C08"
    map = {"printed": "C08"}

    def code(mu: "ser|arr1", R: "df", b: "float", freq: "int", rf: "float", d: "numdict", verbose: "bool"):
        es = EfficientSemivariance(mu, R, freq, b)
        es.set_weights(d)
        return {"value": es.portfolio_performance(verbose, rf)}

    def want(mu, R, b, freq, rf, d, verbose):
        p = Semi(mu, R)
        w = np.array([d[k] for k in p.names])
        short = np.fmin(p.R @ w - b, 0)
        dev = np.sqrt(np.sum(short ** 2) / p.T * freq)
        m = w @ p.mu
        if verbose:
            print(f"{m:.1%} {dev:.1%} {(m - rf) / dev}")
        return {"value": (m, dev, (m - rf) / dev)}


class CVaR(Scenarios):
    def __init__(self, mu, returns, lo=0, hi=1, beta=0.95):
        super().__init__(mu, returns, lo, hi)
        if beta < 0 or beta >= 1:
            raise ValueError("beta")
        if beta <= 0.2:
            warnings.warn("confidence level", UserWarning)
        self.a = cp.Variable()
        self.u = cp.Variable(self.T)
        self.risk = self.a + cp.sum(self.u) / (self.T * (1 - beta))
        self.tail = [self.u >= 0, self.R.values @ self.w + self.a + self.u >= 0]


class CDaR(Scenarios):
    def __init__(self, mu, returns, lo=0, hi=1, beta=0.95):
        super().__init__(mu, returns, lo, hi)
        if beta < 0 or beta >= 1:
            raise ValueError("beta")
        if beta <= 0.2:
            warnings.warn("confidence level", UserWarning)
        self.a = cp.Variable()
        self.u = cp.Variable(self.T + 1)
        self.z = cp.Variable(self.T)
        self.risk = self.a + cp.sum(self.z) / (self.T * (1 - beta))
        self.tail = [self.z >= self.u[1:] - self.a, self.u[1:] >= self.u[:-1] - self.R.values @ self.w, self.u[0] == 0,
                     self.z >= 0, self.u[1:] >= 0]


def optimiser(which, mu, R, beta, lo, hi):
    if which == "cvar":
        return EfficientCVaR(mu, R, beta=beta, weight_bounds=(lo, hi))
    return EfficientCDaR(mu, R, beta=beta, weight_bounds=(lo, hi))


def reference(which, mu, R, beta, lo, hi):
    return CVaR(mu, R, lo, hi, beta) if which == "cvar" else CDaR(mu, R, lo, hi, beta)


class MinTail:
    prop = "C07"

    def code(which: ["cvar", "cdar"], mu: "ser|arr1", R: "df|arr2", beta: "float", lo: "float", hi: "float",
             neutral: [True, False], f: "objfn", g: "objfn", c: "confn", d: "confn"):
        e = optimiser(which, mu, R, beta, lo, hi)
        e.add_objective(f)
        e.add_objective(g)
        e.add_constraint(c)
        e.add_constraint(d)
        return {"weights": e.min_cvar(neutral) if which == "cvar" else e.min_cdar(neutral), "attr": e.weights}

    def want(which, mu, R, beta, lo, hi, neutral, f, g, c, d):
        p = reference(which, mu, R, beta, lo, hi)
        w = p.minimise(p.risk + f(p.w) + g(p.w), p.limits(neutral) + p.tail + [c(p.w), d(p.w)])
        return {"weights": w, "attr": settled(p.w.value)}


class TailReturn:
    prop = "C07"
    map = "again"

    def code(which: ["cvar", "cdar"], mu: "ser|arr1", R: "df|arr2", beta: "float", neutral: [True, False], t: "float", u: "float",
             f: "objfn", g: "objfn", c: "confn", d: "confn"):
        e = optimiser(which, mu, R, beta, -1, 1)
        e.add_objective(f)
        e.add_objective(g)
        e.add_constraint(c)
        e.add_constraint(d)
        first = e.efficient_return(t, neutral)
        return {"first": first, "second": e.efficient_return(u, neutral)}

    def want(which, mu, R, beta, neutral, t, u, f, g, c, d):
        p = reference(which, mu, R, beta, -1, 1)
        if which == "cdar" and t < 0:
            raise ValueError("target")
        cons = p.limits(neutral) + p.tail + [c(p.w), d(p.w)]
        first = p.minimise(p.risk + f(p.w) + g(p.w), cons + [p.ret() >= t])
        if which == "cdar" and u < 0:
            raise ValueError("target")
        return {"first": first, "second": p.minimise(p.risk + f(p.w) + g(p.w), cons + [p.ret() >= u])}


class TailRisk:
    prop = "C07"
    map = "again"

    def code(which: ["cvar", "cdar"], mu: "ser|arr1", R: "df|arr2", beta: "float", neutral: [True, False], t: "float", u: "float",
             f: "objfn", g: "objfn", c: "confn", d: "confn"):
        e = optimiser(which, mu, R, beta, -1, 1)
        e.add_objective(f)
        e.add_objective(g)
        e.add_constraint(c)
        e.add_constraint(d)
        first = e.efficient_risk(t, neutral)
        return {"first": first, "second": e.efficient_risk(u, neutral)}

    def want(which, mu, R, beta, neutral, t, u, f, g, c, d):
        p = reference(which, mu, R, beta, -1, 1)
        if t < 0:
            raise ValueError("target")
        cons = p.limits(neutral) + p.tail + [c(p.w), d(p.w)]
        first = p.minimise(-p.ret() + f(p.w) + g(p.w), cons + [p.risk <= t])
        if u < 0:
            raise ValueError("target")
        return {"first": first, "second": p.minimise(-p.ret() + f(p.w) + g(p.w), cons + [p.risk <= u])}


class TailNeutralAmended:
    prop = "C01"
    skip = ["weights"]

    def code(which: ["cvar", "cdar"], how: ["return", "risk"], mu: "ser", R: "df", beta: "float", t: "float"):
        e = optimiser(which, mu, R, beta, 0, 1)
        if how == "return":
            return {"weights": e.efficient_return(t, True)}
        return {"weights": e.efficient_risk(t, True)}

    def want(which, how, mu, R, beta, t):
        p = reference(which, mu, R, beta, 0, 1)
        if t < 0 and (which == "cdar" or how == "risk"):
            raise ValueError("target")
        if how == "return":
            return {"weights": p.minimise(p.risk, p.limits(True) + p.tail + [p.ret() >= t])}
        return {"weights": p.minimise(-p.ret(), p.limits(True) + p.tail + [p.risk <= t])}


class TailPerformance:
    """At the minimum the solver's auxiliary variables give the tail risk of the delivered portfolio."""
    prop = "C08"
    map = {"printed": "C08"}

    def code(which: ["cvar", "cdar"], how: ["min", "return"], mu: "ser|arr1", R: "df", beta: "float", t: "float", verbose: "bool"):
        e = optimiser(which, mu, R, beta, 0, 1)
        if how == "return":
            e.efficient_return(t)
        elif which == "cvar":
            e.min_cvar()
        else:
            e.min_cdar()
        return {"value": e.portfolio_performance(verbose)}

    def want(which, how, mu, R, beta, t, verbose):
        p = reference(which, mu, R, beta, 0, 1)
        if how == "return":
            if which == "cdar" and t < 0:
                raise ValueError("target")
            p.minimise(p.risk, p.limits() + p.tail + [p.ret() >= t])
        else:
            p.minimise(p.risk, p.limits() + p.tail)
        if verbose:
            print(f"{settled(p.w.value) @ p.mu:.1%} {p.risk.value:.1%}")
        return {"value": (settled(p.w.value) @ p.mu, p.risk.value)}


class CVaRPerformanceAfterRisk:
    """Risk targets leave slack in the auxiliary variables; the report must still be the CVaR of the portfolio."""
    prop = "C08"

    def code(mu: "ser", R: "df", t: "float"):
        e = EfficientCVaR(mu, R)
        e.efficient_risk(t)
        return {"value": e.portfolio_performance()}

    def want(mu, R, t):
        p = CVaR(mu, R)
        if t < 0:
            raise ValueError("target")
        p.minimise(-p.ret(), p.limits() + p.tail + [p.risk <= t])
        w = settled(p.w.value)
        loss = -(p.R.values @ w)
        var = np.sort(loss)[max(int(np.ceil(0.95 * p.T)) - 1, 0)]
        return {"value": (w @ p.mu, var + np.sum(np.maximum(loss - var, 0)) / (p.T * (1 - 0.95)))}

    def known(mu, R, t):
        p = CVaR(mu, R)
        if t < 0:
            raise ValueError("target")
        p.minimise(-p.ret(), p.limits() + p.tail + [p.risk <= t])
        return {"value": (settled(p.w.value) @ p.mu, p.risk.value)}


class CDaRPerformanceAfterRisk:
    """Risk targets leave slack in the auxiliary variables; the report must still be the CDaR of the portfolio."""
    prop = "C08"

    def code(mu: "ser", R: "df", t: "float"):
        e = EfficientCDaR(mu, R)
        e.efficient_risk(t)
        return {"value": e.portfolio_performance()}

    def want(mu, R, t):
        p = CDaR(mu, R)
        if t < 0:
            raise ValueError("target")
        p.minimise(-p.ret(), p.limits() + p.tail + [p.risk <= t])
        w = settled(p.w.value)
        growth = np.cumsum(p.R.values @ w)
        drop = np.maximum(np.maximum.accumulate(growth), 0) - growth
        dar = np.sort(drop)[max(int(np.ceil(0.95 * p.T)) - 1, 0)]
        return {"value": (w @ p.mu, dar + np.sum(np.maximum(drop - dar, 0)) / (p.T * (1 - 0.95)))}

    def known(mu, R, t):
        p = CDaR(mu, R)
        if t < 0:
            raise ValueError("target")
        p.minimise(-p.ret(), p.limits() + p.tail + [p.risk <= t])
        return {"value": (settled(p.w.value) @ p.mu, p.risk.value)}


def unsupported(e, what, x, neutral, d):
    if what == "min_volatility":
        return e.min_volatility()
    if what == "max_sharpe":
        return e.max_sharpe(risk_free_rate=x)
    if what == "utility":
        return e.max_quadratic_utility(x, neutral)
    return e.set_weights(d)


class Unsupported:
    """Inherited methods that make no sense for the risk measure refuse instead of returning something else."""
    prop = "C24"
    raises = "C24"

    def code(which: ["semi", "cvar", "cdar"], what: ["min_volatility", "max_sharpe", "utility", "set_weights"],
             mu: "ser|none", R: "df", d: "numdict", x: "float", neutral: [False, True], lo: "float", hi: "float"):
        assume(which != "semi" or what in ("min_volatility", "max_sharpe"))
        assume(neutral is False or what == "utility")
        if which == "semi":
            e = EfficientSemivariance(mu, R, weight_bounds=(lo, hi))
        else:
            e = optimiser(which, mu, R, 0.95, lo, hi)
        return {"value": unsupported(e, what, x, neutral, d)}

    def want(which, what, mu, R, d, x, neutral, lo, hi):
        assume(which != "semi" or what in ("min_volatility", "max_sharpe"))
        assume(neutral is False or what == "utility")
        p = Scenarios(mu, R)
        raise NotImplementedError(what)


class UnsupportedAfterSolve:
    """The refusal does not depend on what was solved before, and leaves the last answer in place."""
    prop = "C24"
    raises = "C24"

    def code(which: ["semi", "cvar", "cdar"], what: ["min_volatility", "max_sharpe", "utility", "set_weights"],
             mu: "ser", R: "df", d: "numdict", x: "float"):
        assume(which != "semi" or what in ("min_volatility", "max_sharpe"))
        if which == "semi":
            e = EfficientSemivariance(mu, R)
            e.min_semivariance()
        else:
            e = optimiser(which, mu, R, 0.95, 0, 1)
            if which == "cvar":
                e.min_cvar()
            else:
                e.min_cdar()
        try:
            unsupported(e, what, x, False, d)
            refused = False
        except NotImplementedError:
            refused = True
        return {"value": refused, "attr": e.weights}

    def want(which, what, mu, R, d, x):
        assume(which != "semi" or what in ("min_volatility", "max_sharpe"))
        if which == "semi":
            p = Semi(mu, R)
            risk, cons = p.risk(0)
            p.minimise(risk, p.limits() + cons)
        else:
            p = reference(which, mu, R, 0.95, 0, 1)
            p.minimise(p.risk, p.limits() + p.tail)
        return {"value": True, "attr": settled(p.w.value)}
