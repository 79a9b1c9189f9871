"""Reference problems shared by the optimiser specifications."""
import collections

import cvxpy as cp
import numpy as np
import pandas as pd
from pypfopt import exceptions


def named(names, values):
    """Weights are delivered as plain floats, one per asset, in asset order."""
    return collections.OrderedDict((k, float(v)) for k, v in zip(names, values))


def settled(v):
    """The solver's point, negative zeros and float dust removed."""
    return v.round(16) + 0.0


def run(prob, solver=None, verbose=False, opts={}):
    """Weights exist only after the solver reported an optimum."""
    try:
        prob.solve(solver=solver, verbose=verbose, **opts)
    except (TypeError, cp.DCPError):
        raise exceptions.OptimizationError("not solvable")
    if prob.status not in ("optimal", "optimal_inaccurate"):
        raise exceptions.OptimizationError("status")


def asset_names(mu, S):
    if isinstance(mu, pd.Series):
        return list(mu.index)
    if isinstance(S, pd.DataFrame):
        return list(S.columns)
    return list(range(len(S) if mu is None else len(mu)))


def mean_vector(mu):
    if mu is None:
        return None
    if isinstance(mu, pd.Series):
        return mu.values
    if isinstance(mu, list):
        return np.array(mu)
    if isinstance(mu, np.ndarray):
        return mu.ravel()
    raise TypeError("expected_returns")


def cov_array(S):
    if S is None:
        raise ValueError("cov_matrix")
    if isinstance(S, pd.DataFrame):
        return S.values
    if isinstance(S, np.ndarray):
        return S
    raise TypeError("cov_matrix")


class Problem:
    """The assets, the decision vector and the bounds of one mean-variance problem."""

    def __init__(self, mu, S, lo=0, hi=1):
        self.S = cov_array(S)
        self.mu = mean_vector(mu)
        self.names = asset_names(mu, S)
        n = len(S) if mu is None else len(mu)
        if mu is not None and S.shape != (n, n):
            raise ValueError("dimensions")
        self.n = len(self.names)
        self.w = cp.Variable(self.n)
        self.lo = lo
        self.hi = hi

    def bounds(self):
        return [self.w >= np.array([self.lo] * self.n), self.w <= np.array([self.hi] * self.n)]

    def variance(self):
        return cp.quad_form(self.w, self.S, assume_PSD=True)

    def ret(self):
        return self.w @ self.mu

    def answer(self):
        return named(self.names, settled(self.w.value))

    def minimise(self, obj, cons):
        run(cp.Problem(cp.Minimize(obj), cons))
        return self.answer()
