"""C10 risk models, C11 positive-semidefinite repair, C14 risk_matrix dispatch, C25 shrinkage."""
import warnings

import numpy as np
import pandas as pd
from pypfopt import risk_models as rm
from spec.common import frame, simple_returns, returns_of, is_psd, repaired


class FixPsd:
    prop = "C11"
    definite = ["sorted", "spread"]
    raises = "C11"

    def code(m: "df|arr2", method: ["spectral", "diag"]):
        return {"value": rm.fix_nonpositive_semidefinite(m, fix_method=method)}

    def want(m, method):
        return {"value": repaired(m, method)}


class FixPsdDefault:
    prop = "C11"
    definite = ["sorted", "spread"]

    def code(m: "df|arr2"):
        return {"value": rm.fix_nonpositive_semidefinite(m)}

    def want(m):
        return {"value": repaired(m, "spectral")}


class FixPsdUnknownMethod:
    """Any other repair method is refused once a repair is needed."""
    prop = "C11"
    raises = "C11"

    def code(m: "df|arr2", method: "str"):
        return {"value": rm.fix_nonpositive_semidefinite(m, method)}

    def want(m, method):
        return {"value": repaired(m, method)}


class SampleCov:
    prop = "C10"

    def code(p: "df|arr2", rd: "bool", freq: "int", lr: "bool"):
        return {"value": rm.sample_cov(p, returns_data=rd, frequency=freq, log_returns=lr)}

    def want(p, rd, freq, lr):
        r = returns_of(frame(p), rd, lr)
        return {"value": repaired(freq * r.cov(), "spectral")}


class SampleCovMethod:
    prop = "C10"

    def code(p: "df", method: ["spectral", "diag"]):
        return {"value": rm.sample_cov(p, fix_method=method)}

    def want(p, method):
        return {"value": repaired(252 * simple_returns(p, False).cov(), method)}


class SemiCov:
    prop = "C10"

    def code(p: "df|arr2", rd: "bool", b: "float", freq: "int", lr: "bool", method: ["spectral", "diag"]):
        return {"value": rm.semicovariance(p, returns_data=rd, benchmark=b, frequency=freq, log_returns=lr, fix_method=method)}

    def want(p, rd, b, freq, lr, method):
        r = returns_of(frame(p), rd, lr)
        d = np.fmin(r - b, 0)
        return {"value": repaired(freq * (d.T @ d) / len(d), method)}


class SemiCovDefault:
    prop = "C10"

    def code(p: "df"):
        return {"value": rm.semicovariance(p)}

    def want(p):
        d = np.fmin(simple_returns(p, False) - 0.000079, 0)
        return {"value": repaired(252 * (d.T @ d) / len(d), "spectral")}


class ExpCov:
    prop = "C10"

    def code(p: "df|arr2", rd: "bool", span: "int", freq: "int", lr: "bool", method: ["spectral", "diag"]):
        return {"value": rm.exp_cov(p, returns_data=rd, span=span, frequency=freq, log_returns=lr, fix_method=method)}

    def want(p, rd, span, freq, lr, method):
        f = frame(p)
        r = returns_of(f, rd, lr)
        n = len(f.columns)
        C = np.zeros((n, n))
        for i in range(n):
            x = r.iloc[:, i]
            for j in range(n):
                y = r.iloc[:, j]
                if span < 10:
                    warnings.warn("span")
                C[i, j] = ((x - x.mean()) * (y - y.mean())).ewm(span=span).mean().iloc[-1]
        return {"value": repaired(pd.DataFrame(freq * C, index=f.columns, columns=f.columns), method)}


class ExpCovDefault:
    prop = "C10"

    def code(p: "df"):
        return {"value": rm.exp_cov(p)}

    def want(p):
        return {"value": rm.exp_cov(p, False, 180, 252, False, fix_method="spectral")}


class MinCovDeterminant:
    prop = "C10"

    def code(p: "df|arr2", rd: "bool", freq: "int", seed: "int", lr: "bool", method: ["spectral", "diag"]):
        return {"value": rm.min_cov_determinant(p, returns_data=rd, frequency=freq, random_state=seed, log_returns=lr,
                                                fix_method=method)}



    def want(p, rd, freq, seed, lr, method):
        warnings.warn("deprecated")
        f = frame(p)
        try:
            import sklearn.covariance
        except ImportError:
            raise ImportError("sklearn")
        r = returns_of(f, rd, lr)
        raw = sklearn.covariance.fast_mcd(r.dropna().values, random_state=seed)[1]
        return {"value": repaired(freq * pd.DataFrame(raw, index=f.columns, columns=f.columns), method)}


class CovToCorr:
    prop = "C10"

    def code(S: "df|arr2"):
        return {"value": rm.cov_to_corr(S)}

    def want(S):
        S = frame(S)
        d = np.diag(1 / np.sqrt(np.diag(S)))
        return {"value": pd.DataFrame(d @ np.array(S) @ d, index=S.index, columns=S.index)}


class CorrToCov:
    prop = "C10"

    def code(C: "df|arr2", sd: "arr1|ser"):
        return {"value": rm.corr_to_cov(C, sd)}

    def want(C, sd):
        return {"value": frame(C) * np.outer(sd, sd)}


class RiskMatrix:
    prop = "C14"

    def code(p: "df", method: ["sample_cov", "semicovariance", "semivariance", "exp_cov", "ledoit_wolf",
                               "ledoit_wolf_constant_variance", "ledoit_wolf_single_factor", "ledoit_wolf_constant_correlation",
                               "oracle_approximating"], freq: "int", lr: "bool"):
        return {"value": rm.risk_matrix(p, method=method, frequency=freq, log_returns=lr), "plain": rm.risk_matrix(p, method)}



    def want(p, method, freq, lr):
        def pick(**kw):
            if method == "sample_cov":
                return rm.sample_cov(p, **kw)
            if method in ("semicovariance", "semivariance"):
                return rm.semicovariance(p, **kw)
            if method == "exp_cov":
                return rm.exp_cov(p, **kw)
            if method == "oracle_approximating":
                return rm.CovarianceShrinkage(p, **kw).oracle_approximating()
            target = {"ledoit_wolf": "constant_variance", "ledoit_wolf_constant_variance": "constant_variance",
                      "ledoit_wolf_single_factor": "single_factor",
                      "ledoit_wolf_constant_correlation": "constant_correlation"}[method]
            return rm.CovarianceShrinkage(p, **kw).ledoit_wolf(target)
        return {"value": pick(frequency=freq, log_returns=lr), "plain": pick()}


class RiskMatrixDefault:
    prop = "C14"

    def code(p: "df"):
        return {"value": rm.risk_matrix(p)}

    def want(p):
        return {"value": rm.sample_cov(p)}


class RiskMatrixUnknown:
    """Unknown names are refused, known ones are not."""
    prop = "C14"
    raises = "C14"
    skip = ["value", "warnings", "raises:ImportError", "mutate", "effects"]

    def code(p: "df", method: "str"):
        return {"value": rm.risk_matrix(p, method=method)}

    def want(p, method):
        if method not in ("sample_cov", "semicovariance", "semivariance", "exp_cov", "ledoit_wolf",
                          "ledoit_wolf_constant_variance", "ledoit_wolf_single_factor",
                          "ledoit_wolf_constant_correlation", "oracle_approximating"):
            raise NotImplementedError(method)
        return {"value": None}
