"""C25 covariance shrinkage."""
import numpy as np
import pandas as pd
from pypfopt import risk_models as rm
from spec.common import frame, returns_of, repaired


def clean(p, rd, lr):
    f = frame(p)
    return returns_of(f, rd, lr).dropna(how="all")


def finish(raw, X, freq):
    return repaired(pd.DataFrame(raw, index=X.columns, columns=X.columns) * freq, "spectral")


def sklearn_covariance():
    """scikit-learn is optional: only these features need it, and say so with an ImportError."""
    try:
        from sklearn import covariance
    except ImportError:
        raise ImportError("scikit-learn")
    return covariance


def build(p, rd, freq, lr):
    return rm.CovarianceShrinkage(p, returns_data=rd, frequency=freq, log_returns=lr)


class ShrunkCovariance:
    prop = "C25"

    def code(p: "df|arr2", rd: "bool", freq: "int", lr: "bool", delta: "float"):
        cs = build(p, rd, freq, lr)
        v = cs.shrunk_covariance(delta)
        return {"value": v, "delta": cs.delta}

    def want(p, rd, freq, lr, delta):
        sklearn_covariance()
        X = clean(p, rd, lr)
        S = X.cov().values
        n = S.shape[1]
        F = np.eye(n) * np.trace(S) / n
        return {"value": finish(delta * F + (1 - delta) * S, X, freq), "delta": delta}


class ShrunkCovarianceDefault:
    prop = "C25"

    def code(p: "df"):
        return {"value": rm.CovarianceShrinkage(p).shrunk_covariance()}

    def want(p):
        sklearn_covariance()
        X = clean(p, False, False)
        S = X.cov().values
        n = S.shape[1]
        return {"value": finish(0.2 * np.eye(n) * np.trace(S) / n + 0.8 * S, X, 252)}


class LedoitWolfConstantVariance:
    prop = "C25"

    def code(p: "df|arr2", rd: "bool", freq: "int", lr: "bool", target: ["constant_variance", None]):
        cs = build(p, rd, freq, lr)
        v = cs.ledoit_wolf() if target is None else cs.ledoit_wolf(target)
        return {"value": v, "delta": cs.delta}

    def want(p, rd, freq, lr, target):
        covariance = sklearn_covariance()
        X = clean(p, rd, lr)
        raw, d = covariance.ledoit_wolf(np.nan_to_num(X.values))
        return {"value": finish(raw, X, freq), "delta": d}


class OracleApproximating:
    prop = "C25"

    def code(p: "df|arr2", rd: "bool", freq: "int", lr: "bool"):
        cs = build(p, rd, freq, lr)
        return {"value": cs.oracle_approximating(), "delta": cs.delta}

    def want(p, rd, freq, lr):
        covariance = sklearn_covariance()
        X = clean(p, rd, lr)
        raw, d = covariance.oas(np.nan_to_num(X.values))
        return {"value": finish(raw, X, freq), "delta": d}


class LedoitWolfSingleFactor:
    prop = "C25"

    def code(p: "df|arr2", rd: "bool", freq: "int", lr: "bool"):
        cs = build(p, rd, freq, lr)
        return {"value": cs.ledoit_wolf("single_factor"), "delta": cs.delta}

    def want(p, rd, freq, lr):
        sklearn_covariance()
        D = clean(p, rd, lr)
        X = np.nan_to_num(D.values)
        t, n = X.shape
        x = X - X.mean(axis=0)
        mkt = x.mean(axis=1).reshape(t, 1)
        joint = np.cov(np.append(x, mkt, axis=1), rowvar=False) * (t - 1) / t
        b = joint[0:n, n].reshape(n, 1)
        v = joint[n, n]
        S = joint[:n, :n]
        F = (b @ b.T) / v
        F[np.eye(n) == 1] = np.diag(S)
        y = x ** 2
        pi = np.sum(y.T @ y) / t - np.sum(S ** 2)
        rdiag = np.sum(y ** 2) / t - sum(np.diag(S) ** 2)
        z = x * np.tile(mkt, (n,))
        B = np.tile(b, (n,))
        v1 = (y.T @ z) / t - B * S
        roff1 = np.sum(v1 * B.T) / v - np.sum(np.diag(v1) * b.T) / v
        v3 = (z.T @ z) / t - v * S
        roff3 = np.sum(v3 * (b @ b.T)) / v ** 2 - np.sum(np.diag(v3).reshape(-1, 1) * b ** 2) / v ** 2
        kappa = (pi - rdiag - 2 * roff1 + roff3) / np.linalg.norm(S - F, "fro") ** 2
        d = max(0, min(1, kappa / t))
        return {"value": finish(d * F + (1 - d) * S, D, freq), "delta": d}


class LedoitWolfConstantCorrelation:
    prop = "C25"

    def code(p: "df|arr2", rd: "bool", freq: "int", lr: "bool"):
        cs = build(p, rd, freq, lr)
        return {"value": cs.ledoit_wolf("constant_correlation"), "delta": cs.delta}

    def want(p, rd, freq, lr):
        sklearn_covariance()
        D = clean(p, rd, lr)
        X = np.nan_to_num(D.values)
        t, n = X.shape
        S = D.cov().values
        var = np.diag(S).reshape(-1, 1)
        sd = np.sqrt(var)
        outer = np.tile(sd, (n,)) * np.tile(sd, (n,)).T
        rbar = (np.sum(S / outer) - n) / (n * (n - 1))
        F = rbar * outer
        F[np.eye(n) == 1] = var.reshape(-1)
        x = X - X.mean(axis=0)
        y = x ** 2
        G = (x.T @ x) / t
        pim = (y.T @ y) / t - 2 * G * S + S ** 2
        V = np.tile(var, (n,))
        theta = ((x ** 3).T @ x) / t - np.tile(np.diag(G), (n, 1)).T * S - G * V + V * S
        theta[np.eye(n) == 1] = np.zeros(n)
        rho = sum(np.diag(pim)) + rbar * np.sum(((1 / sd) @ sd.T) * theta)
        kappa = (np.sum(pim) - rho) / np.linalg.norm(S - F, "fro") ** 2
        d = max(0.0, min(1.0, kappa / t))
        return {"value": finish(d * F + (1 - d) * S, D, freq), "delta": d}


class LedoitWolfUnknownTarget:
    prop = "C25"
    raises = "C25"
    skip = ["value", "warnings"]

    def code(p: "df", target: "str"):
        rm.CovarianceShrinkage(p).ledoit_wolf(target)
        return {"value": None}

    def want(p, target):
        sklearn_covariance()
        if target not in ("constant_variance", "single_factor", "constant_correlation"):
            raise NotImplementedError(target)
        return {"value": None}
