"""Independent reference definitions shared by the specifications."""
import warnings

import cvxpy as cp
import numpy as np
import pandas as pd


class Precondition(Exception):
    """Inputs outside the documented use; both sides stop there."""


def assume(c):
    if not c:
        raise Precondition()


def frame(p, what="prices are not in a dataframe"):
    """The documented coercion of non-DataFrame input."""
    if isinstance(p, pd.DataFrame):
        return p
    warnings.warn(what, RuntimeWarning)
    return pd.DataFrame(p)


def simple_returns(prices, log_returns):
    r = prices.pct_change(fill_method=None)
    if log_returns:
        r = np.log(1 + r)
    return r.dropna(how="all")


def returns_of(data, returns_data, log_returns):
    if returns_data:
        return data
    return simple_returns(data, log_returns)


def flag_bad_returns(r):
    """NaNs after an asset's first observation, and infinities, are reported by a warning."""
    hole = r.mask(r.ffill().isnull(), 0)
    if np.any(np.isnan(hole)):
        warnings.warn("nan", UserWarning)
    if np.any(np.isinf(r)):
        warnings.warn("inf", UserWarning)


def is_psd(m):
    try:
        np.linalg.cholesky(m + 1e-16 * np.eye(len(m)))
    except np.linalg.LinAlgError:
        return False
    return True


def repaired(m, method):
    """PSD matrices come back unchanged, others are repaired by the requested method."""
    if is_psd(m):
        return m
    warnings.warn("not psd")
    lam, vec = np.linalg.eigh(m)
    if method == "spectral":
        out = vec @ np.diag(np.maximum(lam, 0)) @ vec.T
    elif method == "diag":
        out = m - 1.1 * lam.min() * np.eye(len(m))
    else:
        raise NotImplementedError("method")
    if not is_psd(out):
        warnings.warn("could not fix", UserWarning)
    if isinstance(m, pd.DataFrame):
        return pd.DataFrame(out, index=m.index, columns=m.index)
    return out
