"""Critical-line optimiser: bounds, choice among turning points, and what is reported."""
import collections

import numpy as np
import pandas as pd
from pypfopt import CLA
from pypfopt.base_optimizer import portfolio_performance
from spec.portfolio import named


def mean_of(mu):
    return np.asarray(mu).reshape(len(mu), 1)


def labels(mu):
    return list(mu.index) if isinstance(mu, pd.Series) else list(range(len(mu)))


class ClaLimitsPair:
    """One pair of limits holds for every asset."""
    prop = "C18"

    def code(mu: "ser|arr1|numlist", S: "df|arr2", lo: "float", hi: "float"):
        c = CLA(mu, S, weight_bounds=(lo, hi))
        return {"lower": c.lB, "upper": c.uB, "mean": c.mean, "returns": c.expected_returns, "cov": c.cov_matrix, "names": c.tickers}

    def want(mu, S, lo, hi):
        n = len(mu)
        return {"lower": np.ones((n, 1)) * lo, "upper": np.ones((n, 1)) * hi, "mean": mean_of(mu), "returns": np.array(mu).reshape((n,)),
                "cov": np.asarray(S), "names": labels(mu)}


class ClaMinVolatility:
    """The turning point of least variance."""
    prop = "C18"

    def code(mu: "ser|arr1", S: "df|arr2", tps: "vlist"):
        c = CLA(mu, S)
        c.w = tps
        w = c.min_volatility()
        return {"weights": w, "attr": c.weights}

    def given(tps):
        return len(tps) > 0

    def want(mu, S, tps):
        V = np.asarray(S)
        risk = [(w.T @ V @ w) for w in tps]
        best = tps[risk.index(min(risk))].reshape((len(mu),))
        return {"weights": named(labels(mu), best), "attr": best}


class ClaRefuses:
    prop = "C24"

    def code(mu: "ser", S: "df", x: "?"):
        CLA(mu, S).set_weights(x)

    def want(mu, S, x):
        raise NotImplementedError("set_weights")


class ClaPerformance:
    prop = "C08"

    def code(mu: "ser", S: "df", tps: "vlist", rf: "float"):
        c = CLA(mu, S)
        c.w = tps
        c.min_volatility()
        return c.portfolio_performance(risk_free_rate=rf)

    def given(tps):
        return len(tps) > 0

    def want(mu, S, tps, rf):
        risk = [(w.T @ S.values @ w) for w in tps]
        best = tps[risk.index(min(risk))].reshape((len(mu),))
        m = best @ mu.values
        s = np.sqrt(best @ S.values @ best)
        return m, s, (m - rf) / s


def line_search(f, lo, hi):
    """Golden-section maximiser of f on [lo, hi] to 1e-9, and the value there."""
    phi = 0.618033989
    psi = 1.0 - phi
    x, y = phi * lo + psi * hi, psi * lo + phi * hi
    fx, fy = -f(x), -f(y)
    for _ in range(int(np.ceil(-2.078087 * np.log(1e-9 / abs(hi - lo))))):
        if fx > fy:
            lo, x, fx = x, y, fy
            y = psi * lo + phi * hi
            fy = -f(y)
        else:
            hi, y, fy = y, x, fx
            x = phi * lo + psi * hi
            fx = -f(x)
    return (x, -fx) if fx < fy else (y, -fy)


class ClaMaxSharpe:
    """The best of the maximisers of return over volatility on the segments between turning points."""
    prop = "C18"

    def code(mu: "ser|arr1", S: "df|arr2", tps: "vlist"):
        c = CLA(mu, S)
        c.w = tps
        w = c.max_sharpe()
        return {"weights": w, "attr": c.weights}

    def given(tps):
        return len(tps) > 1

    def want(mu, S, tps):
        V, m = np.asarray(S), mean_of(mu)

        def ratio(a, u, v):
            w = a * u + (1 - a) * v
            return (w.T @ m)[0, 0] / (w.T @ V @ w)[0, 0] ** 0.5

        ends = []
        for k in range(len(tps) - 1):
            u, v = tps[k], tps[k + 1]
            a, best = line_search(lambda x: ratio(x, u, v), 0, 1)
            ends.append((best, a * u + (1 - a) * v))
        top = max(ends, key=lambda e: e[0])[1].reshape((len(mu),))
        return {"weights": named(labels(mu), top), "attr": top}


class ClaFrontier:
    """Points between consecutive turning points, with the return and volatility of each."""
    prop = "C18"

    def code(mu: "ser|arr1", S: "df|arr2", tps: "vlist", points: "int"):
        c = CLA(mu, S)
        c.w = tps
        mus, sigmas, ws = c.efficient_frontier(points)
        return {"mu": mus, "sigma": sigmas, "w": ws, "attr": c.frontier_values}

    def given(tps):
        return len(tps) > 1

    def want(mu, S, tps, points):
        V, m = np.asarray(S), mean_of(mu)
        n = len(tps)
        out = []
        for k in range(n - 1):
            grid = np.linspace(0, 1, points // n)
            if k != n - 2:
                grid = grid[:-1]
            for t in grid:
                out.append(tps[k + 1] * t + (1 - t) * tps[k])
        mus = [(w.T @ m)[0, 0] for w in out]
        sigmas = [(w.T @ V @ w)[0, 0] ** 0.5 for w in out]
        return {"mu": mus, "sigma": sigmas, "w": out, "attr": (mus, sigmas, out)}


def above(x):
    return float("-inf") if x is None else x


class Walk(CLA):
    """The critical-line iteration with its algebra left open."""

    def _compute_lambda(self, A, B, m, wb, j, bi):
        return self.lam(A, B, m, wb, j, bi), self.edge(A, B, m, wb, j, bi)

    def _compute_w(self, A, B, m, wb):
        return self.wr(A, B, m, wb, self.ls[-1]), self.gr(A, B, m, wb, self.ls[-1])

    def _get_matrices(self, f):
        return self.m1(f), self.m2(f), self.m3(f), self.m4(f, self.w[-1])

    def _init_algo(self):
        return self.f0(0), self.w0(0)

    def _purge_num_err(self, tol):
        self.tol = tol

    def _purge_excess(self):
        self.pruned = len(self.w), self.tol


class ClaIteration:
    """From one turning point to the next: the largest multiplier below the last one, over assets that leave or join the free set."""
    prop = "C18"

    def code(mu: "ser", S: "df", lo: "float", hi: "float", lam: "numfn", edge: "numfn", wr: "arrfn", gr: "numfn",
             m1: "arrfn", m2: "arrfn", m3: "arrfn", m4: "arrfn", f0: "listfn", w0: "arrfn"):
        c = Walk(mu, S, weight_bounds=(lo, hi))
        c.lam, c.edge, c.wr, c.gr, c.m1, c.m2, c.m3, c.m4, c.f0, c.w0 = lam, edge, wr, gr, m1, m2, m3, m4, f0, w0
        c._solve()
        return {"w": c.w, "ls": c.ls, "g": c.g, "f": c.f, "tol": c.tol, "pruned": c.pruned}

    def want(mu, S, lo, hi, lam, edge, wr, gr, m1, m2, m3, m4, f0, w0):
        n = len(mu)
        lower, upper = np.ones((n, 1)) * lo, np.ones((n, 1)) * hi
        free, w = f0(0), w0(0)
        points, ls, gs, sets = [w.copy()], [None], [None], [list(free)]
        while True:
            leave = None
            if len(free) > 1:
                B, m, wb = m2(free), m3(free), m4(free, points[-1])
                A = np.linalg.inv(m1(free))
                j = 0
                for i in free:
                    args = (A, B, m, wb, j, [lower[i], upper[i]])
                    l = lam(*args)
                    if above(l) > above(leave):
                        leave, who, where = l, i, edge(*args)
                    j += 1
            join = None
            if len(free) < n:
                for i in list(set(range(n)) - set(free)):
                    g = free + [i]
                    m = m3(g)
                    A = np.linalg.inv(m1(g))
                    l = lam(A, m2(g), m, m4(g, points[-1]), m.shape[0] - 1, points[-1][i])
                    if (ls[-1] is None or l < ls[-1]) and l > above(join):
                        join, newcomer = l, i
            if (leave is None or leave < 0) and (join is None or join < 0):
                ls.append(0)
                A, B, m, wb = np.linalg.inv(m1(free)), m2(free), np.zeros(m3(free).shape), m4(free, points[-1])
            else:
                if above(leave) > above(join):
                    ls.append(leave)
                    free.remove(who)
                    w[who] = where
                else:
                    ls.append(join)
                    free.append(newcomer)
                A, B, m, wb = np.linalg.inv(m1(free)), m2(free), m3(free), m4(free, points[-1])
            v = wr(A, B, m, wb, ls[-1])
            gs.append(gr(A, B, m, wb, ls[-1]))
            for k in range(len(free)):
                w[free[k]] = v[k]
            points.append(w.copy())
            sets.append(list(free))
            if ls[-1] == 0:
                break
        return {"w": points, "ls": ls, "g": gs, "f": sets, "tol": 1e-9, "pruned": (len(points), 1e-9)}


class ClaWeights:
    """Weights of the free assets on the critical line: stationary at the multiplier, and the whole portfolio sums to one."""
    prop = "C18"

    def code(mu: "ser", S: "df", A: "arr2", B: "arr2", m: "arr2", wb: "arr2", l: "float"):
        c = CLA(mu, S)
        c.ls = [l]
        w, g = c._compute_w(A, B, m, wb)
        return {"w": w, "g": g}

    def want(mu, S, A, B, m, wb, l):
        one = np.ones(m.shape)
        g = float((-l * (one.T @ A @ m) + (1 - np.ones(wb.shape).T @ wb + one.T @ (A @ B @ wb))) / (one.T @ A @ one))
        return {"w": A @ (g * one + l * m - B @ wb), "g": g}


class ClaWeightsAllFree:
    """The same with no asset at a bound."""
    prop = "C18"

    def code(mu: "ser", S: "df", A: "arr2", m: "arr2", l: "float"):
        c = CLA(mu, S)
        c.ls = [l]
        w, g = c._compute_w(A, None, m, None)
        return {"w": w, "g": g}

    def want(mu, S, A, m, l):
        one = np.ones(m.shape)
        g = float((1 - l * (one.T @ A @ m)) / (one.T @ A @ one))
        return {"w": A @ (g * one + l * m), "g": g}


class ClaMultiplier:
    """The multiplier at which free asset i reaches the value bi."""
    prop = "C18"

    def code(mu: "ser", S: "df", A: "arr2", B: "arr2", m: "arr2", wb: "arr2", i: "int", b: "float"):
        l, at = CLA(mu, S)._compute_lambda(A, B, m, wb, i, b)
        return {"multiplier": l, "at": at}

    def want(mu, S, A, B, m, wb, i, b):
        one = np.ones(m.shape)
        total, x, y = one.T @ A @ one, A @ one, A @ m
        den = (one.T @ A @ m) * x[i] - total * y[i]
        if den == 0:
            return {"multiplier": None, "at": None}
        held = A @ B @ wb
        num = (1 - np.ones(wb.shape).T @ wb + one.T @ held) * x[i] - total * (b + held[i])
        return {"multiplier": float(num / den), "at": b}


class ClaMultiplierAllFree:
    prop = "C18"

    def code(mu: "ser", S: "df", A: "arr2", m: "arr2", i: "int", b: "float"):
        l, at = CLA(mu, S)._compute_lambda(A, None, m, None, i, b)
        return {"multiplier": l, "at": at}

    def want(mu, S, A, m, i, b):
        one = np.ones(m.shape)
        total, x, y = one.T @ A @ one, A @ one, A @ m
        den = (one.T @ A @ m) * x[i] - total * y[i]
        if den == 0:
            return {"multiplier": None, "at": None}
        return {"multiplier": float((x[i] - total * b) / den), "at": b}


class ClaWhichBound:
    """Of the two limits of a free asset, the one it moves towards."""
    prop = "C18"

    def code(mu: "ser", S: "df", c: "float", lo: "arr1", hi: "arr1"):
        return CLA(mu, S)._compute_bi(c, [lo, hi])

    def want(mu, S, c, lo, hi):
        if c > 0:
            return hi[0]
        if c < 0:
            return lo[0]
        return [lo, hi]


class ClaStart:
    """First turning point: every asset at its lower limit, then filled to its upper limit from the highest return down until invested."""
    prop = "C18"

    def code(mu: "ser", S: "df", lo: "float", hi: "float"):
        f, w = CLA(mu, S, weight_bounds=(lo, hi))._init_algo()
        return {"free": f, "w": w}

    def want(mu, S, lo, hi):
        n = len(mu)
        lower, upper = np.ones((n, 1)) * lo, np.ones((n, 1)) * hi
        table = np.zeros(n, dtype=[("id", int), ("mu", float)])
        table[:] = list(zip(list(range(n)), [mean_of(mu)[k][0] for k in range(n)]))
        order = np.sort(table, order="mu")
        w = lower.copy()
        k = n
        while sum(w) < 1:
            k = k - 1
            w[order[k][0]] = upper[order[k][0]]
        w[order[k][0]] += 1 - sum(w)
        return {"free": [order[k][0]], "w": w}


class ClaBlocks:
    """Covariance of the free assets, covariance of free with bounded, mean of the free, weights of the bounded at the last turning point."""
    prop = "C18"

    def code(mu: "ser", S: "df", f: "list", w: "arr2"):
        c = CLA(mu, S)
        c.w = [w]
        A, B, m, wb = c._get_matrices(f)
        return {"free": A, "mixed": B, "mean": m, "held": wb}

    def want(mu, S, f, w):
        V = np.asarray(S)
        rest = list(set(range(len(mu))) - set(f))
        return {"free": block(V, f, f), "mixed": block(V, f, rest), "mean": block(mean_of(mu), f, [0]), "held": block(w, rest, [0])}


def block(M, rows, cols):
    if len(rows) == 0 or len(cols) == 0:
        return None
    part = M[:, cols[0]:cols[0] + 1]
    for k in cols[1:]:
        part = np.append(part, M[:, k:k + 1], 1)
    out = part[rows[0]:rows[0] + 1, :]
    for k in rows[1:]:
        out = np.append(out, part[k:k + 1, :], 0)
    return out


class ClaPurgeErrors:
    """Turning points that are not fully invested or leave the limits by more than the tolerance are dropped, whole."""
    prop = "C18"
    skip = ["mutate"]

    def code(mu: "ser", S: "df", lo: "float", hi: "float", w: "vlist", ls: "list", g: "list", f: "list", tol: "float"):
        c = CLA(mu, S, weight_bounds=(lo, hi))
        c.w, c.ls, c.g, c.f = w, ls, g, f
        c._purge_num_err(tol)
        return {"w": c.w, "ls": c.ls, "g": c.g, "f": c.f}

    def want(mu, S, lo, hi, w, ls, g, f, tol):
        n = len(mu)
        lower, upper = np.ones((n, 1)) * lo, np.ones((n, 1)) * hi
        i = 0
        while True:
            if i == len(w):
                break
            bad = False
            if abs(sum(w[i]) - 1) > tol:
                bad = True
            else:
                for j in range(w[i].shape[0]):
                    if w[i][j] < lower[j] - tol or w[i][j] > upper[j] + tol:
                        bad = True
                        break
            if bad:
                del w[i]
                del ls[i]
                del g[i]
                del f[i]
            else:
                i = i + 1
        return {"w": w, "ls": ls, "g": g, "f": f}


class ClaPurgeExcess:
    """A turning point is dropped when a later one has a higher return."""
    prop = "C18"
    skip = ["mutate"]

    def code(mu: "ser", S: "df", w: "vlist", ls: "list", g: "list", f: "list"):
        c = CLA(mu, S)
        c.w, c.ls, c.g, c.f = w, ls, g, f
        c._purge_excess()
        return {"w": c.w, "ls": c.ls, "g": c.g, "f": c.f}

    def want(mu, S, w, ls, g, f):
        m = mean_of(mu)
        i, again = 0, False
        while True:
            if not again:
                i = i + 1
            if i == len(w) - 1:
                break
            here = (w[i].T @ m)[0, 0]
            j, again = i + 1, False
            while True:
                if j == len(w):
                    break
                if (w[j].T @ m)[0, 0] > here:
                    del w[i]
                    del ls[i]
                    del g[i]
                    del f[i]
                    again = True
                    break
                j = j + 1
        return {"w": w, "ls": ls, "g": g, "f": f}


class ClaLimitsEach:
    """One pair of limits for each asset."""
    prop = "C18"

    def code(mu: "ser|arr1", S: "df", limits: "pairlist"):
        c = CLA(mu, S, weight_bounds=limits)
        return {"lower": c.lB, "upper": c.uB}

    def given(mu, limits):
        return len(limits) == len(mu)

    def want(mu, S, limits):
        n = len(mu)
        return {"lower": np.array([b[0] for b in limits]).reshape(-1, 1), "upper": np.array([b[1] for b in limits]).reshape(-1, 1)}


class ClaLimitsArrays:
    """A vector of lower limits and a vector of upper limits."""
    prop = "C18"

    def code(mu: "ser|arr1", S: "df", lo: "arr1", hi: "arr1"):
        c = CLA(mu, S, weight_bounds=(lo, hi))
        return {"lower": c.lB, "upper": c.uB}

    def given(mu):
        return len(mu) != 2

    def want(mu, S, lo, hi):
        n = len(mu)
        return {"lower": lo.reshape(n, 1), "upper": hi.reshape(n, 1)}


class ClaDefaultLimits:
    """Without bounds weights lie between zero and one, and the critical line is not walked before it is asked for."""
    prop = "C18"

    def code(mu: "ser|arr1", S: "df"):
        c = CLA(mu, S)
        return {"lower": c.lB, "upper": c.uB, "w": c.w, "ls": c.ls, "g": c.g, "f": c.f, "frontier": c.frontier_values, "weights": c.weights}

    def want(mu, S):
        n = len(mu)
        return {"lower": np.ones((n, 1)) * 0, "upper": np.ones((n, 1)), "w": [], "ls": [], "g": [], "f": [], "frontier": None, "weights": None}


class Lazy(CLA):
    def _solve(self):
        self.walks = self.walks + 1
        self.w = self.found


class ClaWalksOnce:
    """The critical line is walked on the first request and kept."""
    prop = "C18"

    def code(mu: "ser", S: "df", tps: "vlist", points: "int"):
        c = Lazy(mu, S)
        c.walks, c.found = 0, tps
        c.min_volatility()
        one = c.walks
        c.min_volatility()
        two = c.walks
        d = Lazy(mu, S)
        d.walks, d.found = 0, tps
        d.max_sharpe()
        d.efficient_frontier()
        three = d.walks
        e = Lazy(mu, S)
        e.walks, e.found = 0, tps
        e.efficient_frontier(points)
        return {"one": one, "two": two, "three": three, "four": e.walks, "w": c.w}

    def given(tps):
        return len(tps) > 1

    def want(mu, S, tps, points):
        return {"one": 1, "two": 1, "three": 1, "four": 1, "w": tps}


class ClaFrontierDefault:
    """Around a hundred points unless told otherwise."""
    prop = "C18"

    def code(mu: "ser", S: "df", tps: "vlist"):
        c = CLA(mu, S)
        c.w = tps
        return c.efficient_frontier()

    def given(tps):
        return len(tps) > 1

    def want(mu, S, tps):
        c = CLA(mu, S)
        c.w = tps
        return c.efficient_frontier(100)
