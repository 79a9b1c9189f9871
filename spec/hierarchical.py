"""Hierarchical risk parity."""
import collections

import numpy as np
import pandas as pd
import scipy.cluster.hierarchy as sch
import scipy.spatial.distance as ssd
from pypfopt import HRPOpt, risk_models
from spec.common import assume
from spec.portfolio import named


def cluster_variance(cov, items):
    """Variance of the inverse-variance portfolio of a cluster."""
    c = cov.loc[items, items].values
    w = 1 / np.diag(c)
    w = w / w.sum()
    return w @ c @ w


def bisect(cov, order):
    """Recursive bisection: every split divides the weight inversely to the variance of the halves."""
    w = pd.Series(1.0, index=order)
    clusters = [order]
    while len(clusters) > 0:
        clusters = [c[a:b] for c in clusters for a, b in ((0, len(c) // 2), (len(c) // 2, len(c))) if len(c) > 1]
        for i in range(0, len(clusters), 2):
            left = clusters[i]
            right = clusters[i + 1]
            vl = cluster_variance(cov, left)
            vr = cluster_variance(cov, right)
            share = vr / (vl + vr)
            w[left] = w[left] * share
            w[right] = w[right] * (1 - share)
    return w




class Hierarchy:
    prop = "C17"

    def code(returns: "df", method: "str"):
        h = HRPOpt(returns)
        w = h.optimize(method)
        return {"weights": w, "attr": h.weights, "clusters": h.clusters}

    def want(returns, method):
        if method not in sch._LINKAGE_METHODS:
            raise ValueError("linkage_method")
        corr = returns.corr()
        distance = np.sqrt(np.clip((1 - corr) / 2, 0, 1))
        clusters = sch.linkage(ssd.squareform(distance, checks=False), method)
        order = corr.index[sch.to_tree(clusters, rd=False).pre_order()].tolist()
        w = collections.OrderedDict(bisect(returns.cov(), order).sort_index())
        return {"weights": w, "attr": np.array([w[t] for t in returns.columns]), "clusters": clusters}


class HierarchyFromCovariance:
    prop = "C17"

    def code(S: "df"):
        h = HRPOpt(cov_matrix=S)
        return {"weights": h.optimize()}

    def want(S):
        if "single" not in sch._LINKAGE_METHODS:
            raise ValueError("linkage_method")
        corr = risk_models.cov_to_corr(S).round(6)
        distance = np.sqrt(np.clip((1 - corr) / 2, 0, 1))
        clusters = sch.linkage(ssd.squareform(distance, checks=False), "single")
        order = corr.index[sch.to_tree(clusters, rd=False).pre_order()].tolist()
        return {"weights": collections.OrderedDict(bisect(S, order).sort_index())}


class HierarchyBoth:
    """Returns take precedence over a covariance matrix given as well."""
    prop = "C17"
    definite = ["index", "DataFrame"]

    def code(returns: "df", S: "df"):
        return {"weights": HRPOpt(returns, S).optimize()}

    def want(returns, S):
        return {"weights": HRPOpt(returns).optimize()}


class HierarchyInputs:
    prop = "C20"

    def code(returns: "arr2|list|none", S: "none"):
        HRPOpt(returns, S)
        return {"value": 1}

    def want(returns, S):
        if returns is None:
            raise ValueError("either")
        raise TypeError("returns")


class HierarchyPerformance:
    prop = "C08"
    map = {"printed": "C08"}

    def code(returns: "df|none", S: "df", d: "numdict", rf: "float", freq: "int", verbose: "bool"):
        h = HRPOpt(returns, S)
        h.set_weights(d)
        return {"value": h.portfolio_performance(verbose, rf, freq)}

    def want(returns, S, d, rf, freq, verbose):
        names = S.columns if returns is None else returns.columns
        w = np.array([d[t] for t in names])
        if returns is None:
            sigma = np.sqrt(w @ S.values @ w)
            if verbose:
                print(f"{sigma:.1%}")
            return {"value": (None, sigma, None)}
        sigma = np.sqrt(w @ (returns.cov().values * freq) @ w)
        m = w @ (returns.mean().values * freq)
        if verbose:
            print(f"{m:.1%} {sigma:.1%} {(m - rf) / sigma}")
        return {"value": (m, sigma, (m - rf) / sigma)}
