"""Figures show the data they are asked for."""
import warnings

import matplotlib.pyplot as plt
import numpy as np
import scipy.cluster.hierarchy as sch
from pypfopt import CLA, EfficientFrontier, HRPOpt, exceptions, plotting, risk_models


def out(kwargs):
    """A file is written and a window opened only on request."""
    if kwargs.get("filename", None):
        plt.savefig(fname=kwargs.get("filename", None), dpi=kwargs.get("dpi", 300))
    if kwargs.get("showfig", False):
        plt.show()


class WeightsFigure:
    prop = "C23"
    definite = ["sorted", "argsort", "sort"]
    map = {"drawing": "C23"}

    def code(weights: "numdict", filename: "str|none", show: "bool"):
        return {"value": plotting.plot_weights(weights, filename=filename, showfig=show)}

    def want(weights, filename, show):
        ax = plt.gca()
        pairs = sorted(weights.items(), key=lambda x: x[1], reverse=True)
        pos = np.arange(len(pairs))
        ax.barh(pos, [w for t, w in pairs])
        ax.set_xlabel("Weight")
        ax.set_yticks(pos)
        ax.set_yticklabels([t for t, w in pairs])
        ax.invert_yaxis()
        out({"filename": filename, "showfig": show})
        return {"value": ax}


class CovarianceFigure:
    prop = "C23"
    definite = ["sorted", "argsort", "sort", "getitem", "slice"]
    map = {"drawing": "C23"}

    def code(S: "df", corr: "bool", tickers: "bool", filename: "str|none", dpi: "int"):
        return {"value": plotting.plot_covariance(S, corr, tickers, filename=filename, dpi=dpi)}

    def want(S, corr, tickers, filename, dpi):
        m = risk_models.cov_to_corr(S) if corr else S
        fig, ax = plt.subplots()
        c = ax.imshow(m)
        fig.colorbar(c)
        if tickers:
            ax.set_xticks(np.arange(0, m.shape[0], 1))
            ax.set_xticklabels(m.index)
            ax.set_yticks(np.arange(0, m.shape[0], 1))
            ax.set_yticklabels(m.index)
        out({"filename": filename, "dpi": dpi})
        return {"value": ax}


class DendrogramFigure:
    prop = "C23"
    definite = ["sorted", "argsort", "sort"]
    map = {"drawing": "C23"}

    def code(returns: "df", solved: "bool", tickers: "bool", filename: "str|none"):
        h = HRPOpt(returns)
        if solved:
            h.optimize()
        return {"value": plotting.plot_dendrogram(h, show_tickers=tickers, filename=filename)}

    def want(returns, solved, tickers, filename):
        h = HRPOpt(returns)
        ax = plt.gca()
        if not solved:
            warnings.warn("not optimized", RuntimeWarning)
        h.optimize()
        if tickers:
            sch.dendrogram(h.clusters, labels=list(returns.columns), ax=ax)
        else:
            sch.dendrogram(h.clusters, no_labels=True, ax=ax)
        out({"filename": filename})
        return {"value": ax}


class DendrogramByHand:
    """Weights set by hand bring no clustering: the tree is computed before it is drawn."""
    prop = "C23"
    map = {"drawing": "C23", "warnings": "C23"}

    def code(returns: "df", given: "numdict"):
        h = HRPOpt(returns)
        h.set_weights(given)
        return {"value": plotting.plot_dendrogram(h, show_tickers=False)}

    def want(returns, given):
        h = HRPOpt(returns)
        ax = plt.gca()
        warnings.warn("not optimized", RuntimeWarning)
        h.optimize()
        sch.dendrogram(h.clusters, no_labels=True, ax=ax)
        out({})
        return {"value": ax}


def assets(ax, names, mu, S, show_assets, show_tickers):
    sigma = np.sqrt(np.diag(S))
    if show_assets:
        ax.scatter(sigma, mu)
        if show_tickers:
            for i, t in enumerate(names):
                ax.annotate(t, (sigma[i], mu[i]))


class Desk(EfficientFrontier):
    """A caller's optimiser: some targets are infeasible, some are refused, each portfolio is distinct."""

    def __init__(self, mu, S, names, low, worst):
        self.expected_returns = mu
        self.cov_matrix = S
        self.tickers = names
        self.low = low
        self.worst = worst

    def choose(self, kind, v):
        if v < self.worst:
            raise ValueError("refused")
        if v < self.low:
            raise exceptions.OptimizationError("infeasible")
        self.kind = kind
        self.value = v

    def efficient_risk(self, v):
        self.choose("risk", v)

    def efficient_return(self, v):
        self.choose("return", v)

    def max_quadratic_utility(self, v):
        self.choose("utility", v)

    def portfolio_performance(self):
        v = self.value
        k = {"risk": 1, "return": 2, "utility": 3}[self.kind]
        return v ** k, np.exp(v) * k, 0


class FrontierFigure:
    """One point per parameter value that has a portfolio; infeasible values leave no point."""
    prop = "C23"
    definite = ["sorted", "argsort", "sort"]
    map = {"drawing": "C23", "warnings": "C23", "raises:NotImplementedError": "C23"}

    def code(mu: "arr1", S: "arr2", names: "list", low: "float", worst: "float", grid: "arr1", kind: ["risk", "return", "utility", "other"],
             assets_: "bool", tickers: "bool", filename: "str|none"):
        ef = Desk(mu, S, names, low, worst)
        ax = plotting.plot_efficient_frontier(ef, ef_param=kind, ef_param_range=grid, show_assets=assets_, show_tickers=tickers, filename=filename)
        return {"value": ax}

    def want(mu, S, names, low, worst, grid, kind, assets_, tickers, filename):
        if kind == "other":
            if len(grid) > 0:
                raise NotImplementedError("ef_param")
        k = {"risk": 1, "return": 2, "utility": 3, "other": 4}[kind]
        ax = plt.gca()
        m = []
        s = []
        for v in grid:
            if v < worst:
                warnings.warn("Could not construct portfolio")
            elif v >= low:
                m.append(v ** k)
                s.append(np.exp(v) * k)
        ax.plot(s, m)
        assets(ax, names, mu, S, assets_, tickers)
        ax.set_xlabel("Volatility")
        ax.set_ylabel("Return")
        out({"filename": filename})
        return {"value": ax}


class ClaDesk(CLA):
    """A caller's critical line: solved or not, each state with its own numbers."""

    def __init__(self, mu, S, names, solved, traced, r, s):
        self.expected_returns = mu
        self.cov_matrix = S
        self.tickers = names
        self.r = r
        self.s = s
        self.weights = np.array([r, s]) if solved else None
        self.frontier_values = ([r, r + 1], [s, s + 1], [[r], [s]]) if traced else None

    def max_sharpe(self):
        self.weights = np.array([self.s, self.r])

    def efficient_frontier(self, points=100):
        self.frontier_values = ([self.r, points], [points, self.s], [[0], [1]])
        return self.frontier_values

    def portfolio_performance(self):
        return self.weights[0] * 2, self.weights[1] * 3, 5


class ClaFigure:
    """The critical line's frontier and its maximum-Sharpe portfolio, computed only when the instance lacks them."""
    prop = "C23"
    definite = ["slice"]
    map = {"drawing": "C23", "warnings": "C23"}

    def code(mu: "arr1", S: "arr2", names: "list", solved: [True, False], traced: [True, False], r: "float", s: "float", n: "int",
             assets_: "bool", tickers: "bool", filename: "str|none"):
        cla = ClaDesk(mu, S, names, solved, traced, r, s)
        ax = plotting.plot_efficient_frontier(cla, points=n, show_assets=assets_, show_tickers=tickers, filename=filename)
        return {"value": ax, "weights": cla.weights}

    def want(mu, S, names, solved, traced, r, s, n, assets_, tickers, filename):
        ax = plt.gca()
        w = np.array([r, s]) if solved else np.array([s, r])
        if traced:
            ax.plot([s, s + 1], [r, r + 1])
        else:
            ax.plot([n, s], [r, n])
        ax.scatter(3 * w[1], 2 * w[0])
        assets(ax, names, mu, S, assets_, tickers)
        ax.set_xlabel("Volatility")
        ax.set_ylabel("Return")
        out({"filename": filename})
        return {"value": ax, "weights": w}


class Range(EfficientFrontier):
    """A caller's optimiser whose frontier runs from one return to another."""

    def __init__(self, mu, S, names, low, high):
        self.expected_returns = mu
        self.cov_matrix = S
        self.tickers = names
        self.low = low
        self.high = high
        self.value = None

    def deepcopy(self):
        return Range(self.expected_returns, self.cov_matrix, self.tickers, self.low, self.high)

    def min_volatility(self):
        if self.value is not None:
            raise exceptions.InstantiationError("already solved")
        self.value = self.low

    def _max_return(self, return_value=True):
        if self.value is not None:
            raise exceptions.InstantiationError("already solved")
        self.value = self.high
        return self.high

    def efficient_return(self, v):
        self.value = v

    def portfolio_performance(self):
        return self.value, np.exp(self.value), 0


class DefaultRange:
    """Without a grid the frontier is drawn for targets from the minimum-volatility return up to the largest return."""
    prop = "C23"
    map = {"drawing": "C23", "warnings": "C23", "raises:InstantiationError": "C23"}

    def code(mu: "arr1", S: "arr2", names: "list", low: "float", high: "float", n: "int", given: "bool"):
        ef = Range(mu, S, names, low, high)
        if given:
            ax = plotting.plot_efficient_frontier(ef, points=n)
        else:
            ax = plotting.plot_efficient_frontier(ef)
        return {"value": ax}

    def want(mu, S, names, low, high, n, given):
        ax = plt.gca()
        grid = np.linspace(low, high - 0.0001, n if given else 100)
        ax.plot([np.exp(v) for v in grid], [v for v in grid])
        assets(ax, names, mu, S, True, False)
        ax.set_xlabel("Volatility")
        ax.set_ylabel("Return")
        return {"value": ax}


class NotAnOptimiser:
    prop = "C23"
    map = {"drawing": "-", "raises:NotImplementedError": "C23"}

    def code(S: "df", what: ["hrp", "frame"]):
        return {"value": plotting.plot_efficient_frontier(HRPOpt(cov_matrix=S) if what == "hrp" else S)}

    def want(S, what):
        raise NotImplementedError("optimiser")


def plotly():
    try:
        import plotly.graph_objects as go
        from plotly.subplots import make_subplots
        return go
    except ModuleNotFoundError:
        raise ImportError("plotly")


class InteractiveFrontier:
    """The interactive figure shows the same points; without plotly it is refused."""
    prop = "C23"
    map = {"drawing": "C23", "warnings": "C23", "effects": "C22"}

    def code(mu: "arr1", S: "arr2", names: "list", low: "float", worst: "float", grid: "arr1", assets_: "bool", filename: "str"):
        ef = Desk(mu, S, names, low, worst)
        return {"value": plotting.plot_efficient_frontier(ef, ef_param_range=grid, show_assets=assets_, interactive=True, filename=filename)}

    def want(mu, S, names, low, worst, grid, assets_, filename):
        go = plotly()
        ax = go.Figure()
        m = []
        s = []
        for v in grid:
            if v < worst:
                warnings.warn("Could not construct portfolio")
            elif v >= low:
                m.append(v ** 2)
                s.append(np.exp(v) * 2)
        ax.add_trace(go.Scatter(x=s, y=m))
        if assets_:
            ax.add_trace(go.Scatter(x=np.sqrt(np.diag(S)), y=mu))
        ax.update_layout(xaxis_title="Volatility", yaxis_title="Return")
        return {"value": ax}


class InteractiveCla:
    prop = "C23"
    map = {"drawing": "C23", "warnings": "C23", "effects": "C22"}

    def code(mu: "arr1", S: "arr2", names: "list", solved: [True, False], traced: [True, False], r: "float", s: "float", n: "int", assets_: "bool"):
        cla = ClaDesk(mu, S, names, solved, traced, r, s)
        ax = plotting.plot_efficient_frontier(cla, points=n, show_assets=assets_, interactive=True)
        return {"value": ax, "weights": cla.weights}

    def want(mu, S, names, solved, traced, r, s, n, assets_):
        go = plotly()
        ax = go.Figure()
        w = np.array([r, s]) if solved else np.array([s, r])
        if traced:
            ax.add_trace(go.Scatter(x=[s, s + 1], y=[r, r + 1], customdata=[[r], [s]]))
        else:
            ax.add_trace(go.Scatter(x=[n, s], y=[r, n], customdata=[[0], [1]]))
        ax.add_trace(go.Scatter(x=[3 * w[1]], y=[2 * w[0]], customdata=[w, [5]]))
        if assets_:
            ax.add_trace(go.Scatter(x=np.sqrt(np.diag(S)), y=mu))
        ax.update_layout(xaxis_title="Volatility", yaxis_title="Return")
        return {"value": ax, "weights": w}
