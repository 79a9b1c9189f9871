"""Black-Litterman posterior estimates and market-implied quantities."""
import warnings

import numpy as np
import pandas as pd
from pypfopt import black_litterman
from pypfopt.black_litterman import BlackLittermanModel
from spec.common import assume
from spec.portfolio import named


def values(S):
    return S.values if isinstance(S, pd.DataFrame) else S


def labels(S):
    return list(S.columns) if isinstance(S, pd.DataFrame) else list(range(len(S)))


def solve(A, b):
    """A x = b, by least squares when A is singular."""
    try:
        return np.linalg.solve(A, b)
    except np.linalg.LinAlgError as e:
        if "Singular matrix" in str(e):
            return np.linalg.lstsq(A, b, rcond=None)[0]
        raise e


def column(v):
    if isinstance(v, (pd.Series, pd.DataFrame)):
        v = v.values
    return v.reshape(-1, 1)


class Views:
    """A model with explicit views Q on portfolios P, prior pi and view uncertainty omega (None: proportional)."""

    def __init__(self, S, pi, Q, P, omega=None, tau=0.05, ra=1):
        self.names = labels(S)
        self.S = values(S)
        self.n = len(self.S)
        self.Q = column(Q)
        self.P = values(P)
        if ra <= 0:
            raise ValueError("risk aversion")
        if pi is None:
            warnings.warn("no prior")
            self.pi = np.zeros((self.n, 1))
        else:
            self.pi = column(pi)
        if tau <= 0 or tau > 1:
            raise ValueError("tau")
        self.tau = tau
        self.ra = ra
        k = len(self.Q)
        if self.pi.shape != (self.n, 1) or self.P.shape != (k, self.n) or self.S.shape != (self.n, self.n):
            raise AssertionError("dimensions")
        self.spread = tau * (self.P @ self.S @ self.P.T)
        self.omega = np.diag(np.diag(self.spread)) if omega is None else values(omega)
        if self.omega.shape != (k, k):
            raise AssertionError("omega")

    def returns(self):
        x = solve(self.spread + self.omega, self.Q - self.P @ self.pi)
        return (self.pi + (self.tau * self.S) @ self.P.T @ x).flatten()

    def covariance(self):
        x = solve(self.spread + self.omega, self.tau * (self.P @ self.S.T))
        return self.S + self.tau * self.S - self.tau * self.S @ self.P.T @ x


class PosteriorReturns:
    prop = "C15"

    def code(S: "df|arr2", pi: "ser|df|arr1|none", Q: "ser|arr1|arr2", P: "df|arr2", tau: "float", ra: "float"):
        m = BlackLittermanModel(S, pi=pi, Q=Q, P=P, tau=tau, risk_aversion=ra)
        return {"returns": m.bl_returns()}

    def want(S, pi, Q, P, tau, ra):
        m = Views(S, pi, Q, P, None, tau, ra)
        return {"returns": pd.Series(m.returns(), index=m.names)}


class PosteriorCovariance:
    prop = "C15"

    def code(S: "df|arr2", pi: "ser", Q: "arr1", P: "df|arr2", omega: "df|arr2|none|=default", tau: "float"):
        m = BlackLittermanModel(S, pi=pi, Q=Q, P=P, omega=omega, tau=tau)
        return {"cov": m.bl_cov()}

    def want(S, pi, Q, P, omega, tau):
        m = Views(S, pi, Q, P, None if isinstance(omega, str) else omega, tau)
        return {"cov": pd.DataFrame(m.covariance(), index=m.names, columns=m.names)}


class PosteriorBoth:
    """Order of the two queries does not matter, and each can be repeated."""
    prop = "C15"

    def code(S: "df", pi: "ser", Q: "arr1", P: "arr2", omega: "arr2", first: ["returns", "cov"]):
        m = BlackLittermanModel(S, pi=pi, Q=Q, P=P, omega=omega)
        if first == "returns":
            m.bl_returns()
            c = m.bl_cov()
            r = m.bl_returns()
        else:
            m.bl_cov()
            r = m.bl_returns()
            c = m.bl_cov()
        return {"cov": c, "returns": r}

    def want(S, pi, Q, P, omega, first):
        m = Views(S, pi, Q, P, omega)
        return {"cov": pd.DataFrame(m.covariance(), index=m.names, columns=m.names), "returns": pd.Series(m.returns(), index=m.names)}


class AbsoluteViews:
    """Each absolute view is paired with its own asset, whatever order the views come in."""
    prop = "C15"

    def code(S: "df|arr2", pi: "arr1", views: "numdict|ser", omega: "arr2"):
        m = BlackLittermanModel(S, pi=pi, absolute_views=views, omega=omega)
        return {"Q": m.Q, "P": m.P, "returns": m.bl_returns()}

    def want(S, pi, views, omega):
        names = labels(S)
        v = pd.Series(views)
        P = np.zeros((len(v), len(S)))
        for i, name in enumerate(v.index):
            if name not in names:
                raise ValueError("unknown asset")
            P[i, names.index(name)] = 1
        Q = np.array([v[name] for name in v.index]).reshape(-1, 1)
        m = Views(S, pi, Q, P, omega)
        return {"Q": Q, "P": P, "returns": pd.Series(m.returns(), index=m.names)}


class EqualPrior:
    prop = "C15"

    def code(S: "df|arr2", Q: "arr1", P: "arr2"):
        return {"pi": BlackLittermanModel(S, pi="equal", Q=Q, P=P).pi}

    def want(S, Q, P):
        m = Views(S, np.ones(len(S)) / len(S), Q, P)
        return {"pi": m.pi}


class MarketPrior:
    prop = "C16"

    def code(S: "df|arr2", Q: "arr1", P: "arr2", caps: "numdict|ser", ra: "float", rf: "float"):
        return {"pi": BlackLittermanModel(S, pi="market", market_caps=caps, risk_free_rate=rf, risk_aversion=ra, Q=Q, P=P).pi}

    def want(S, Q, P, caps, ra, rf):
        if ra <= 0:
            raise ValueError("risk aversion")
        if not isinstance(S, pd.DataFrame):
            warnings.warn("alignment", RuntimeWarning)
        c = pd.Series(caps)
        pi = ra * (S.dot(c / c.sum())) + rf
        m = Views(S, pi, Q, P, None, 0.05, ra)
        return {"pi": m.pi}


class MarketPriorDefaults:
    """Without risk_free_rate and risk_aversion the prior is the implied return of a unit-aversion holder, with no cash rate."""
    prop = "C16"

    def code(S: "df", Q: "arr1", P: "arr2", caps: "numdict|ser"):
        m = BlackLittermanModel(S, pi="market", market_caps=caps, Q=Q, P=P)
        return {"pi": m.pi, "returns": m.bl_returns()}

    def want(S, Q, P, caps):
        c = pd.Series(caps)
        m = Views(S, 1 * (S.dot(c / c.sum())) + 0.0, Q, P)
        return {"pi": m.pi, "returns": pd.Series(m.returns(), index=m.names)}


class MarketPriorNeedsCaps:
    prop = "C16"
    raises = "C16"

    def code(S: "df", Q: "arr1", P: "arr2"):
        return {"pi": BlackLittermanModel(S, pi="market", Q=Q, P=P).pi}

    def want(S, Q, P):
        raise ValueError("market_caps")


class EveryAssetView:
    """Without P the views are on the assets themselves."""
    prop = "C15"

    def code(S: "df", pi: "arr1", Q: "arr1"):
        m = BlackLittermanModel(S, pi=pi, Q=Q)
        return {"P": m.P, "returns": m.bl_returns()}

    def want(S, pi, Q):
        if len(Q) != len(S):
            raise TypeError("P")
        m = Views(S, pi, Q, np.eye(len(S)))
        return {"P": m.P, "returns": pd.Series(m.returns(), index=m.names)}


class Idzorek:
    """Percentage confidences turned into view uncertainty."""
    prop = "C15"

    def code(conf: "arr1", S: "arr2", Q: "arr2", P: "arr2", pi: "arr2", tau: "float"):
        return {"omega": BlackLittermanModel.idzorek_method(conf, S, pi, Q, P, tau)}

    def want(conf, S, Q, P, pi, tau):
        out = []
        for i in range(len(Q)):
            if conf[i] < 0 or conf[i] > 1:
                raise ValueError("confidence")
            if conf[i] == 0:
                out.append(1e6)
            else:
                p = P[i].reshape(1, -1)
                out.append((tau * (1 - conf[i]) / conf[i] * (p @ S @ p.T)).item())
        return {"omega": np.diag(out)}


class IdzorekModel:
    prop = "C15"

    def code(S: "df|arr2", pi: "arr1", Q: "arr1", P: "arr2", conf: "arr1|numlist", tau: "float"):
        m = BlackLittermanModel(S, pi=pi, Q=Q, P=P, omega="idzorek", view_confidences=conf, tau=tau)
        return {"omega": m.omega}

    def want(S, pi, Q, P, conf, tau):
        c = conf
        if tau <= 0 or tau > 1:
            raise ValueError("tau")
        if isinstance(conf, list):
            c = np.array(conf).reshape(-1, 1)
        S_ = values(S)
        k = len(Q)
        n = len(S_)
        if pi.reshape(-1, 1).shape != (n, 1) or P.shape != (k, n) or S_.shape != (n, n):
            raise AssertionError("dimensions")
        if isinstance(conf, list) and len(conf) != k:
            raise ValueError("view_confidences")
        omega = BlackLittermanModel.idzorek_method(c, S_, pi.reshape(-1, 1), Q.reshape(-1, 1), P, tau, 1)
        if omega.shape != (k, k):
            raise AssertionError("omega")
        return {"omega": omega}


class IdzorekNeedsConfidences:
    prop = "C15"
    raises = "C15"

    def code(S: "df", pi: "arr1", Q: "arr1", P: "arr2"):
        m = BlackLittermanModel(S, pi=pi, Q=Q, P=P, omega="idzorek")
        return {"omega": m.omega}

    def want(S, pi, Q, P):
        k = len(Q)
        n = len(S)
        if pi.reshape(-1, 1).shape != (n, 1) or P.shape != (k, n) or S.values.shape != (n, n):
            raise AssertionError("dimensions")
        raise ValueError("view_confidences")


class PosteriorWeights:
    """Weights implied by the posterior returns: (risk aversion * covariance)^-1 * returns, normalised to sum to one."""
    prop = "C15"

    def code(S: "df|arr2", pi: "arr1", Q: "arr1", P: "arr2", omega: "arr2", ra: "float|none", how: ["bl_weights", "optimize"]):
        m = BlackLittermanModel(S, pi=pi, Q=Q, P=P, omega=omega, risk_aversion=2.5)
        w = m.bl_weights(ra) if how == "bl_weights" else m.optimize(ra)
        return {"weights": w, "attr": m.weights, "clean": m.clean_weights()}

    def want(S, pi, Q, P, omega, ra, how):
        m = Views(S, pi, Q, P, omega, 0.05, 2.5)
        x = solve((2.5 if ra is None else ra) * m.S, m.returns())
        w = x / x.sum()
        c = w.copy()
        c[np.abs(c) < 1e-4] = 0
        return {"weights": named(m.names, w), "attr": w, "clean": named(m.names, np.round(c, 5))}


class PosteriorPerformance:
    prop = "C08"
    map = {"printed": "C08"}

    def code(S: "df|arr2", pi: "arr1", Q: "arr1", P: "arr2", omega: "arr2", rf: "float", verbose: "bool"):
        m = BlackLittermanModel(S, pi=pi, Q=Q, P=P, omega=omega)
        m.bl_weights()
        return {"value": m.portfolio_performance(verbose, rf)}

    def want(S, pi, Q, P, omega, rf, verbose):
        m = Views(S, pi, Q, P, omega)
        r = m.returns()
        x = solve(m.S, r)
        w = x / x.sum()
        sigma = np.sqrt(w @ m.covariance() @ w)
        mu = w @ r
        if verbose:
            print(f"{mu:.1%} {sigma:.1%} {(mu - rf) / sigma}")
        return {"value": (mu, sigma, (mu - rf) / sigma)}


class MarketReturns:
    prop = "C16"

    def code(caps: "numdict|ser", ra: "float", S: "df|arr2", rf: "float"):
        return {"value": black_litterman.market_implied_prior_returns(caps, ra, S, rf)}

    def want(caps, ra, S, rf):
        if not isinstance(S, pd.DataFrame):
            warnings.warn("alignment", RuntimeWarning)
        c = pd.Series(caps)
        return {"value": ra * (S.dot(c / c.sum())) + rf}


class MarketRiskAversion:
    prop = "C16"

    def code(p: "ser|df", freq: "float", rf: "float"):
        return {"value": black_litterman.market_implied_risk_aversion(p, freq, rf)}

    def want(p, freq, rf):
        r = p.squeeze().pct_change().dropna()
        return {"value": (freq * r.mean() - rf) / (freq * r.var())}


class MarketRiskAversionType:
    prop = "C16"
    raises = "C16"

    def code(p: "arr1|list|arr2"):
        return {"value": black_litterman.market_implied_risk_aversion(p)}

    def want(p):
        raise TypeError("market_prices")
