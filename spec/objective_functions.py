"""C09: the objective functions compute their documented formulas, with the sign convention of a
minimisation, for numeric weights and for cvxpy variables alike."""
import cvxpy as cp
import numpy as np
from pypfopt import objective_functions as o


class PortfolioVariance:
    prop = "C09"

    def code(w: "arr1", S: "arr2|df"):
        return {"value": o.portfolio_variance(w, S)}

    def want(w, S):
        return {"value": w @ np.array(S) @ w}


class PortfolioReturn:
    prop = "C09"

    def code(w: "arr1", mu: "arr1|ser", neg: "bool"):
        return {"value": o.portfolio_return(w, mu, negative=neg), "default": o.portfolio_return(w, mu)}

    def want(w, mu, neg):
        m = np.array(mu)
        return {"value": -(w @ m) if neg else w @ m, "default": -(w @ m)}


class SharpeRatio:
    prop = "C09"

    def code(w: "arr1", mu: "arr1|ser", S: "arr2|df", rf: "float", neg: "bool"):
        return {"value": o.sharpe_ratio(w, mu, S, rf, neg), "named": o.sharpe_ratio(w, mu, S, risk_free_rate=rf, negative=neg),
                "default": o.sharpe_ratio(w, mu, S)}

    def want(w, mu, S, rf, neg):
        m, C = np.array(mu), np.array(S)
        vol = np.sqrt(w @ C @ w)
        s = (w @ m - rf) / vol
        v = -s if neg else s
        return {"value": v, "named": v, "default": -(w @ m) / vol}


class L2Reg:
    prop = "C09"

    def code(w: "arr1", g: "float"):
        return {"value": o.L2_reg(w, g), "named": o.L2_reg(w, gamma=g), "default": o.L2_reg(w)}

    def want(w, g):
        return {"value": g * np.sum(w ** 2), "named": g * np.sum(w ** 2), "default": np.sum(w ** 2)}


class QuadraticUtility:
    prop = "C09"
    raises = "C09"

    def code(w: "arr1", mu: "arr1|ser", S: "arr2|df", ra: "float", neg: "bool"):
        return {"value": o.quadratic_utility(w, mu, S, ra, neg), "default": o.quadratic_utility(w, mu, S, risk_aversion=ra)}

    def want(w, mu, S, ra, neg):
        if ra < 0:
            raise ValueError("risk aversion")
        u = w @ np.array(mu) - 0.5 * ra * (w @ np.array(S) @ w)
        return {"value": -u if neg else u, "default": -u}


class TransactionCost:
    prop = "C09"

    def code(w: "arr1", prev: "arr1", k: "float"):
        return {"value": o.transaction_cost(w, prev, k), "default": o.transaction_cost(w, w_prev=prev)}

    def want(w, prev, k):
        t = np.sum(np.abs(w - prev))
        return {"value": k * t, "default": t / 1000}


class ExAnteTrackingError:
    prop = "C09"

    def code(w: "arr1", S: "arr2|df", b: "arr1"):
        return {"value": o.ex_ante_tracking_error(w, S, b)}

    def want(w, S, b):
        d = w - b
        return {"value": d @ np.array(S) @ d}


class ExPostTrackingError:
    prop = "C09"

    def code(w: "arr1", hist: "arr2|df", b: "arr1|ser"):
        return {"value": o.ex_post_tracking_error(w, hist, b)}

    def want(w, hist, b):
        bb = np.array(b)
        x = np.array(hist) @ w - bb
        return {"value": np.sum((x - np.sum(x) / len(bb)) ** 2)}


class VariableObjectives:
    """With a cvxpy variable the same formulas come back as expressions of that variable."""
    prop = "C09"
    raises = "C09"

    def code(mu: "arr1|ser", S: "arr2|df", n: "int", neg: "bool", g: "float", prev: "arr1", ra: "float", hist: "arr2", b: "arr1",
             rf: "float"):
        w = cp.Variable(n)
        return {
            "variance": o.portfolio_variance(w, S),
            "return": o.portfolio_return(w, mu, negative=neg),
            "sharpe": o.sharpe_ratio(w, mu, S, rf, neg),
            "l2": o.L2_reg(w, gamma=g),
            "cost": o.transaction_cost(w, prev, g),
            "exante": o.ex_ante_tracking_error(w, S, prev),
            "expost": o.ex_post_tracking_error(w, hist, b),
        }

    def want(mu, S, n, neg, g, prev, ra, hist, b, rf):
        w = cp.Variable(n)
        s = -1 if neg else 1
        x = w @ hist.T - b
        C = np.array(S)
        return {
            "variance": cp.quad_form(w, C),
            "return": s * (w @ mu),
            "sharpe": s * (w @ mu - rf) / cp.sqrt(cp.quad_form(w, C)),
            "l2": g * cp.sum_squares(w),
            "cost": g * cp.norm1(w - prev),
            "exante": cp.quad_form(w - prev, C),
            "expost": cp.sum_squares(x - cp.sum(x) / len(b)),
        }
